"""Models of the interfaces the engine does not look through.

A model forks the abstract state into the outcomes the interface documents
(success / every kind of failure) and reports events to the checker:
acquire / release of a resource, lock operations, failed steps, escapes.
A model is applied to a call from *outside* the module that implements the
function; when that module itself is analysed its real code is used, so the
implementation is checked against the same discipline.
"""
from engine import T, mk, split, root_of, assume, Inter, known_const, nonnull, State

SPECS = {}
SLOTS = {}


def spec(*names, always=False):
    def deco(f):
        f.always = always
        for n in names:
            SPECS[n] = f
        return f
    return deco


def slot(*names):
    def deco(f):
        f.always = True
        for n in names:
            SLOTS[n] = f
        return f
    return deco


def res_used(eng, ins):
    if not ins.res:
        return False
    f = ins.fn
    c = _used.get(f.uname)
    if c is None or c[0] is not f:
        u = set()
        for b in f.blocks.values():
            for i in b.insts:
                for a in i.args:
                    if isinstance(a, str):
                        u.add(a)
            for p in b.phis:
                for a in p.args:
                    if isinstance(a, str):
                        u.add(a)
        c = (f, u)
        _used[f.uname] = c
    return ins.res in c[1]


_used = {}


# calls that leave the reason of their failure in errno
SET_ERRNO = {'mmap', 'munmap', 'utils_mmap', 'open', 'fopen', 'shm_open', 'utils_devdax_open', 'utils_file_open',
             'utils_file_open_or_create', 'utils_shm_create', 'utils_shm_open', 'utils_create_anonymous_fd',
             'utils_get_file_size', 'utils_set_file_size', 'ftruncate', 'madvise', 'utils_purge',
             'hwloc_set_area_membind', 'hwloc_topology_init', 'hwloc_topology_load', 'utils_duplicate_fd'}


def set_errno(eng, st, what):
    t = mk('sym', what)
    for k in [k for k in st.facts if k is t or k.__class__ is tuple and (k[2] is t or k[3] is t)]:
        del st.facts[k]
    st.mem[(mk('g', '<errno>'), 0)] = t


def ev(eng, name, *a):
    if name == 'failed' and a[1] in SET_ERRNO:
        set_errno(eng, a[0], 'errno:' + a[1])
    h = getattr(eng.ck, name, None)
    if h is not None:
        return h(eng, *a)


def failsym(eng, st, ins, ctx, name, w=32, pos=False):
    """non-zero result of a failed step"""
    t = mk('sym', 'fail:' + name, ins.id, ctx)
    m = eng.__dict__.get('_enumfns')
    if m is None:
        m = eng._enumfns = {f.name: max(f.enumret[1].values() if isinstance(f.enumret[1], dict) else f.enumret[1])
                            for f in eng.prog.fn.values() if f.enumret is not None and f.enumret[1]}
    if name in m and m[name].__class__ is int:
        st.facts[t] = Inter(1, m[name], 1, m[name], frozenset([0]))
        return t
    st.facts[t] = Inter(1 if pos else None, None, 1, None, frozenset([0]))
    return t


def do_alloc(eng, st, ins, ctx, kind, name, default='u', extra=None, failv=0, can_fail=True):
    out = []
    if can_fail:
        s0 = st.copy()
        if ev(eng, 'failed', s0, name, ins, ctx) is not False:
            out.append((s0, failv))
    o = mk('obj', kind, ins.id, ctx)
    eng.add_range(st, o, default, 0, None, None if default != 'h' else o)
    ev(eng, 'acquire', st, kind, o, ins, ctx, extra)
    out.append((st, o))
    return out


def do_release(eng, st, ins, ctx, kind, v, extra=None):
    if v == 0 or known_const(st, v) == 0:
        ev(eng, 'release_null', st, kind, ins, ctx)
        return True
    ev(eng, 'release', st, kind, v, ins, ctx, extra)
    return True


def do_status(eng, st, ins, ctx, name, onok=None, onfail=None, can_fail=True):
    """0 on success, non-zero otherwise"""
    out = []
    if can_fail:
        s0 = st.copy()
        r = failsym(eng, s0, ins, ctx, name)
        if onfail:
            onfail(s0)
        if ev(eng, 'failed', s0, name, ins, ctx, r) is not False:
            out.append((s0, r))
    if onok:
        onok(st)
    ev(eng, 'succeeded', st, name, ins, ctx)
    out.append((st, 0))
    return out


# ------------------------------------------------------------------- logging
@spec('utils_log', 'utils_plog', always=True)
def _log(eng, st, a, ins, ctx):
    ev(eng, 'extcall', st, 'log', a, ins, ctx)
    set_errno(eng, st, 'errno~log')
    return [(st, None)]


@spec('debug_check', 'debug_dump_all_blocks', 'ba_debug_checks', always=True)
def _dbg(eng, st, a, ins, ctx):
    # self-checks inside assert(): assumed to hold
    return [(st, 1 if ins.res else None)]


# --------------------------------------------------------------- base alloc
@spec('umf_ba_global_alloc')
def _ba_galloc(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'umf_ba_global_alloc', a[0], ins, ctx)
    return do_alloc(eng, st, ins, ctx, 'ba_global', 'umf_ba_global_alloc', 'u', (a[0],))


@spec('umf_ba_global_aligned_alloc')
def _ba_galloc2(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'umf_ba_global_aligned_alloc', a[0], ins, ctx)
    return do_alloc(eng, st, ins, ctx, 'ba_global', 'umf_ba_global_aligned_alloc', 'u', (a[0],))


@spec('umf_ba_global_free')
def _ba_gfree(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'ba_global', a[0])
    return [(st, None)]


@spec('umf_ba_alloc')
def _ba_alloc(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    ev(eng, 'use', st, a[0], ins, ctx)
    return do_alloc(eng, st, ins, ctx, 'ba_pool_chunk', 'umf_ba_alloc', 'u', (a[0],))


@spec('umf_ba_free')
def _ba_free(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    ev(eng, 'use', st, a[0], ins, ctx)
    do_release(eng, st, ins, ctx, 'ba_pool_chunk', a[1], (a[0],))
    return [(st, None)]


@spec('umf_ba_create')
def _ba_create(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'ba_pool', 'umf_ba_create', 'h')


@spec('umf_ba_destroy')
def _ba_destroy(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    do_release(eng, st, ins, ctx, 'ba_pool', a[0])
    return [(st, None)]


@spec('umf_ba_linear_create')
def _bal_create(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'ba_linear', 'umf_ba_linear_create', 'h')


@spec('umf_ba_linear_destroy')
def _bal_destroy(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'ba_linear', a[0])
    return [(st, None)]


@spec('umf_ba_linear_alloc')
def _bal_alloc(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'umf_ba_linear_alloc', a[1], ins, ctx)
    return do_alloc(eng, st, ins, ctx, 'ba_linear_chunk', 'umf_ba_linear_alloc', 'u', (a[1], a[0]))


@spec('umf_ba_linear_free')
def _bal_free(eng, st, a, ins, ctx):
    # non-zero: not ours
    s0 = st.copy()
    r = failsym(eng, s0, ins, ctx, 'umf_ba_linear_free')
    do_release(eng, st, ins, ctx, 'ba_linear_chunk', a[1], (a[0],))
    return [(s0, r), (st, 0)]


@spec('ba_os_alloc')
def _osalloc(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'ba_os_alloc', a[0], ins, ctx)
    return do_alloc(eng, st, ins, ctx, 'ba_os', 'ba_os_alloc', 'z', (a[0],))


@spec('ba_os_free')
def _osfree(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'ba_os', a[0])
    return [(st, None)]


# -------------------------------------------------------------- concurrency
def lockspec(op):
    def f(eng, st, a, ins, ctx):
        if not eng.check_deref(st, a[0], ins, ctx):
            return []
        out = []
        if op in ('lock', 'rdlock', 'wrlock') and res_used(eng, ins):
            s0 = st.copy()
            r = failsym(eng, s0, ins, ctx, 'lock')
            if ev(eng, 'failed', s0, 'utils_' + op, ins, ctx, r) is not False:
                out.append((s0, r))
        r = ev(eng, 'lockop', st, op, a[0], ins, ctx)
        if r is not False:
            out.append((st, 0))
        return out
    return f


for _n, _o in (('utils_mutex_lock', 'lock'), ('utils_mutex_unlock', 'unlock'), ('utils_read_lock', 'rdlock'),
               ('utils_write_lock', 'wrlock'), ('utils_read_unlock', 'rdunlock'), ('utils_write_unlock', 'wrunlock'),
               ('pthread_mutex_lock', 'lock'), ('pthread_mutex_unlock', 'unlock'),
               ('pthread_rwlock_rdlock', 'rdlock'), ('pthread_rwlock_wrlock', 'wrlock'),
               ('pthread_rwlock_unlock', 'rwunlock')):
    _f = lockspec(_o)
    _f.always = True
    SPECS[_n] = _f


@spec('utils_mutex_init', 'utils_rwlock_init', always=True)
def _mtx_init(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    out = []
    s0 = st.copy()
    if ev(eng, 'failed', s0, 'utils_mutex_init', ins, ctx) is not False:
        out.append((s0, 0))
    ev(eng, 'acquire', st, 'lockinit', a[0], ins, ctx, None)
    if isinstance(a[0], T):
        assume(st, 'ne', a[0], 0, 64)
    out.append((st, a[0]))
    return out


@spec('utils_mutex_destroy_not_free', 'utils_rwlock_destroy_not_free', always=True)
def _mtx_destroy(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    do_release(eng, st, ins, ctx, 'lockinit', a[0])
    return [(st, None)]


@spec('utils_init_once', 'pthread_once', always=True)
def _once(eng, st, a, ins, ctx):
    key = ('once', a[0])
    if key in st.ts:
        if st.ts[key] == 'running':
            ev(eng, 'once_nested', st, a[0], ins, ctx)
        return [(st, 0)]
    st.ts[key] = 1
    out = [] if eng.cold else [(st.copy(), 0)]
    f = a[1]
    if isinstance(f, T) and f.k == 'f' and f.a[0] in eng.prog.fn:
        fn = eng.prog.fn[f.a[0]]
        ev(eng, 'once', st, a[0], fn, ins, ctx)
        outer = st.ts.get('inonce')
        st.ts['inonce'] = fn.name
        st.ts[key] = 'running'
        for s, r, _ in eng.run(fn, [], st, ctx + (('C', (fn.uname, ins.id)),)):
            s.ts.pop('inonce', None)
            s.ts[key] = 1
            ev(eng, 'once_done', s, a[0], fn, ins, ctx)
            if outer is not None:
                s.ts['inonce'] = outer
            out.append((s, 0))
    return out


# ------------------------------------------------------------------ library
@spec('utils_open_library', always=True)
def _openlib(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'library', 'utils_open_library', 'h')


@spec('utils_close_library', always=True)
def _closelib(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'library', a[0])
    return [(st, 0)]


@spec('utils_get_symbol_addr', always=True)
def _getsym(eng, st, a, ins, ctx):
    s0 = st.copy()
    out = []
    if ev(eng, 'symbol_missing', s0, a, ins, ctx) is not False:
        out.append((s0, 0))
    o = mk('sym', 'dlsym', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    ev(eng, 'symbol_found', st, a, o, ins, ctx)
    out.append((st, o))
    return out


@spec('dlopen')
def _dlopen(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'library', 'dlopen', 'h')


@spec('dlclose')
def _dlclose(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'library', a[0])
    return [(st, 0)]


# ---------------------------------------------------------------- OS memory
@spec('mmap')
def _mmap(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'mmap', a[1], ins, ctx)
    return do_alloc(eng, st, ins, ctx, 'mapping', 'mmap', 'z', (a[1],), failv=-1)


@spec('munmap')
def _munmap(eng, st, a, ins, ctx):
    s0 = st.copy()
    out = []
    if res_used(eng, ins):
        r = mk('sym', 'munmap', ins.id, ctx)
        s0.facts[r] = Inter(-1, -1)
        ev(eng, 'release_failed', s0, 'mapping', a[0], ins, ctx)
        if ev(eng, 'failed', s0, 'munmap', ins, ctx, r) is not False:
            out.append((s0, -1))
    if isinstance(a[0], T):
        ev(eng, 'release', st, 'mapping', a[0], ins, ctx, (a[1],))
    out.append((st, 0))
    return out


@spec('utils_mmap', 'utils_mmap_file')
def _ummap(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'utils_mmap', a[1], ins, ctx)
    return do_alloc(eng, st, ins, ctx, 'mapping', 'utils_mmap', 'z', (a[1],))


@spec('utils_munmap')
def _umunmap(eng, st, a, ins, ctx):
    return _munmap(eng, st, a, ins, ctx)


def fd_open(name):
    def f(eng, st, a, ins, ctx):
        out = []
        s0 = st.copy()
        if ev(eng, 'failed', s0, name, ins, ctx) is not False:
            out.append((s0, -1))
        o = mk('sym', 'fd:' + name, ins.id, ctx)
        st.facts[o] = Inter(3, 0x7fffffff, 3, 0x7fffffff)
        ev(eng, 'acquire', st, 'fd', o, ins, ctx, None)
        out.append((st, o))
        return out
    f.always = False
    return f


for _n in ('open', 'utils_devdax_open', 'utils_file_open', 'utils_file_open_or_create', 'utils_shm_create',
           'utils_shm_open', 'utils_create_anonymous_fd', 'shm_open'):
    SPECS[_n] = fd_open(_n)


@spec('utils_close_fd')
def _closefd(eng, st, a, ins, ctx):
    set_errno(eng, st, 'errno~close')
    do_release_fd(eng, st, ins, ctx, a[0])
    return [(st, 0)]


@spec('close')
def _close(eng, st, a, ins, ctx):
    set_errno(eng, st, 'errno~close')
    do_release_fd(eng, st, ins, ctx, a[0])
    return [(st, 0)]


def do_release_fd(eng, st, ins, ctx, v):
    c = known_const(st, v)
    if c is not None and c < 0:
        return
    ev(eng, 'release', st, 'fd', v, ins, ctx, None)


@spec('utils_duplicate_fd')
def _dupfd(eng, st, a, ins, ctx):
    def ok(s):
        o = mk('sym', 'fd:dup', ins.id, ctx)
        s.facts[o] = Inter(3, 0x7fffffff, 3, 0x7fffffff)
        eng.mstore(s, a[2], o)
        ev(eng, 'acquire', s, 'fd', o, ins, ctx, None)
    return do_status(eng, st, ins, ctx, 'utils_duplicate_fd', ok)


def int_status(name, fv=None, outs=()):
    def f(eng, st, a, ins, ctx):
        out = []
        if res_used(eng, ins) or True:
            s0 = st.copy()
            if fv is None:
                r = failsym(eng, s0, ins, ctx, name)
            else:
                r = fv
            if ev(eng, 'failed', s0, name, ins, ctx, r) is not False:
                out.append((s0, r))
        for k in outs:
            if isinstance(a[k], T):
                b, o = split(a[k])
                eng.mstore(st, a[k], mk('sym', name + '.out', ins.id, ctx))
            else:
                ev(eng, 'deref', st, 0, ins, ctx)
        ev(eng, 'succeeded', st, name, ins, ctx)
        out.append((st, 0))
        return out
    f.always = False
    return f


SPECS['utils_get_file_size'] = int_status('utils_get_file_size', -1, (1,))
SPECS['utils_set_file_size'] = int_status('utils_set_file_size', -1)
SPECS['utils_fallocate'] = int_status('utils_fallocate', None)
SPECS['ftruncate'] = int_status('ftruncate', -1)
SPECS['posix_fallocate'] = int_status('posix_fallocate', None)
SPECS['madvise'] = int_status('madvise', -1)
SPECS['utils_purge'] = int_status('utils_purge', -1)
SPECS['utils_translate_mem_protection_flags'] = int_status('utils_translate_mem_protection_flags', None, (1,))
SPECS['utils_translate_mem_visibility_flag'] = int_status('utils_translate_mem_visibility_flag', None, (1,))


@spec('utils_shm_unlink', 'shm_unlink')
def _shmunlink(eng, st, a, ins, ctx):
    return [(st, 0)]


@spec('utils_get_page_size', 'ba_os_get_page_size')
def _pagesize(eng, st, a, ins, ctx):
    t = mk('ld', mk('g', '<page-size>'), 0, 0)
    st.facts[t] = Inter(4096, None, 4096, 1 << 30)
    return [(st, t)]


@spec('utils_errno_to_umf_result')
def _errno2umf(eng, st, a, ins, ctx):
    r = failsym(eng, st, ins, ctx, 'errno')
    return [(st, r)]


@spec('utils_strerror')
def _strerror(eng, st, a, ins, ctx):
    if isinstance(a[1], T):
        ev(eng, 'bufwrite', st, a[1], a[2], ins, ctx)
        eng.havoc(st, split(a[1])[0], mk('sym', 'hv', ins.id, ctx))
    return [(st, None)]


@spec('utils_env_var_get_str', 'utils_parse_var')
def _env(eng, st, a, ins, ctx):
    s0 = st.copy()
    o = mk('sym', 'env', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    if len(a) > 2 and isinstance(a[2], T):
        p = mk('sym', 'envarg', ins.id, ctx)
        st.facts[p] = Inter(None, None, 1, None, frozenset([0]))
        eng.mstore(st, a[2], p)
    return [(s0, 0), (st, o)]


# ---------------------------------------------------------------- critnib
@spec('critnib_new')
def _cn_new(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'critnib', 'critnib_new', 'h')


@spec('critnib_delete')
def _cn_del(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    do_release(eng, st, ins, ctx, 'critnib', a[0])
    return [(st, None)]


@spec('critnib_insert')
def _cn_ins(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    ev(eng, 'use', st, a[0], ins, ctx)
    out = []
    for code in (12, 17):          # ENOMEM, EEXIST
        if code == 17 and isinstance(a[3], int) and a[3]:
            continue               # update requested
        s0 = st.copy()
        if ev(eng, 'failed', s0, 'critnib_insert', ins, ctx, code) is not False:
            out.append((s0, code))
    ev(eng, 'stored_in', st, a[0], a[2], ins, ctx)
    ev(eng, 'index', st, 'insert', a, ins, ctx)
    out.append((st, 0))
    return out


@spec('critnib_remove')
def _cn_rem(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    ev(eng, 'use', st, a[0], ins, ctx)
    s0 = st.copy()
    out = []
    if ev(eng, 'failed', s0, 'critnib_remove', ins, ctx) is not False:
        out.append((s0, 0))
    o = mk('sym', 'removed', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    ev(eng, 'index', st, 'remove', a, ins, ctx)
    ev(eng, 'taken_from', st, a[0], o, ins, ctx)
    out.append((st, o))
    return out


@spec('critnib_get', 'critnib_find_le')
def _cn_get(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    ev(eng, 'use', st, a[0], ins, ctx)
    s0 = st.copy()
    o = mk('sym', 'found', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    ev(eng, 'lookup', st, a[0], o, ins, ctx)
    return [(s0, 0), (st, o)]


@spec('critnib_find')
def _cn_find(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    ev(eng, 'use', st, a[0], ins, ctx)
    ev(eng, 'visit', st, a[0], ins, ctx)
    s0 = st.copy()
    o = mk('sym', 'found', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    k = mk('sym', 'foundkey', ins.id, ctx)
    if isinstance(a[3], T):
        eng.mstore(st, a[3], k)
    if isinstance(a[4], T):
        eng.mstore(st, a[4], o)
    ev(eng, 'lookup', st, a[0], o, ins, ctx)
    ev(eng, 'found_key', st, a[0], k, ins, ctx)
    r = mk('sym', 'critnib_find', ins.id, ctx)
    return [(s0, 0), (st, 1)]


def run_cb(eng, st, f, args, ins, ctx):
    if isinstance(f, T) and f.k == 'f' and f.a[0] in eng.prog.fn:
        fn = eng.prog.fn[f.a[0]]
        return [(s, r) for s, r, _ in eng.run(fn, args, st, ctx + (('C', (fn.uname, ins.id)),))]
    return [(st, None)]


@spec('critnib_iter')
def _cn_iter(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    ev(eng, 'visit', st, a[0], ins, ctx)
    s0 = st.copy()
    o = mk('sym', 'itervalue', ins.id, ctx)
    k = mk('sym', 'iterkey', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    ev(eng, 'iterated', st, a[0], o, k, ins, ctx)
    return [(s0, None)] + [(s, None) for s, _ in run_cb(eng, st, a[3], [k, o, a[4]], ins, ctx)]


# -------------------------------------------------------------------- ravl
@spec('ravl_new', 'ravl_new_sized')
def _rv_new(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'ravl', 'ravl_new', 'h')


@spec('ravl_delete')
def _rv_del(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    do_release(eng, st, ins, ctx, 'ravl', a[0])
    return [(st, None)]


@spec('ravl_delete_cb', 'ravl_foreach')
def _rv_delcb(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    out = []
    s0 = st.copy()
    o = mk('obj', 'ravldata', ins.id, ctx)
    eng.add_range(st, o, 'h', 0, None, o)
    isdel = ins.x['callee'][1] == 'ravl_delete_cb'
    for s in (s0, st):
        ev(eng, 'visit', s, a[0], ins, ctx)
    for s in [s0] + [s for s, _ in run_cb(eng, st, a[1], [o, a[2]], ins, ctx)]:
        if isdel:
            do_release(eng, s, ins, ctx, 'ravl', a[0])
        out.append((s, None))
    return out


@spec('ravl_insert', 'ravl_emplace_copy', 'ravl_emplace')
def _rv_ins(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    name = ins.x['callee'][1]
    out = []
    s0 = st.copy()
    if ev(eng, 'failed', s0, name, ins, ctx, 12) is not False:
        out.append((s0, -1))
    if name == 'ravl_emplace_copy' and isinstance(a[1], T):
        # contents of *data are copied into the tree
        b, o = split(a[1])
        for k, v in list(st.mem.items()):
            if k[0] is b and isinstance(v, T):
                ev(eng, 'stored_in', st, a[0], v, ins, ctx)
    elif name == 'ravl_insert':
        ev(eng, 'stored_in', st, a[0], a[1], ins, ctx)
    out.append((st, 0))
    return out


@spec('ravl_find', 'ravl_first', 'ravl_last', 'ravl_node_successor', 'ravl_node_predecessor')
def _rv_find(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    s0 = st.copy()
    o = mk('sym', 'rnode', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    return [(s0, 0), (st, o)]


@spec('ravl_data')
def _rv_data(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    o = mk('op', 'ravl_data', 64, a[0])
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    return [(st, o)]


@spec('ravl_remove', 'ravl_clear')
def _rv_rem(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    return [(st, None)]


@spec('ravl_empty')
def _rv_empty(eng, st, a, ins, ctx):
    return [(st, mk('sym', 'ravl_empty', ins.id, ctx))]


# ------------------------------------------------------------------ coarse
@spec('coarse_new')
def _co_new(eng, st, a, ins, ctx):
    def ok(s):
        o = mk('obj', 'coarse', ins.id, ctx)
        eng.add_range(s, o, 'h', 0, None, o)
        ev(eng, 'acquire', s, 'coarse', o, ins, ctx, None)
        eng.mstore(s, a[1], o)
    return do_status(eng, st, ins, ctx, 'coarse_new', ok)


@spec('coarse_delete')
def _co_del(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'coarse', a[0])
    return [(st, None)]


@spec('coarse_alloc')
def _co_alloc(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'coarse_alloc', a[1], ins, ctx)

    def ok(s):
        o = mk('sym', 'coarse-mem', ins.id, ctx)
        s.facts[o] = Inter(None, None, 1, None, frozenset([0]))
        eng.mstore(s, a[3], o)
    return do_status(eng, st, ins, ctx, 'coarse_alloc', ok)


for _n in ('coarse_free', 'coarse_split', 'coarse_merge', 'coarse_add_memory_from_provider', 'coarse_add_memory_fixed'):
    def _mk(n):
        def f(eng, st, a, ins, ctx):
            return do_status(eng, st, ins, ctx, n)
        f.always = False
        return f
    SPECS[_n] = _mk(_n)


# ------------------------------------------------------------------- hwloc
@spec('hwloc_topology_init')
def _hw_init(eng, st, a, ins, ctx):
    out = []
    s0 = st.copy()
    if ev(eng, 'failed', s0, 'hwloc_topology_init', ins, ctx, -1) is not False:
        out.append((s0, -1))
    o = mk('obj', 'hwtopo', ins.id, ctx)
    eng.add_range(st, o, 'h', 0, None, o)
    eng.mstore(st, a[0], o)
    ev(eng, 'acquire', st, 'hwtopo', o, ins, ctx, None)
    out.append((st, 0))
    return out


@spec('hwloc_topology_destroy')
def _hw_destroy(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'hwtopo', a[0])
    return [(st, None)]


SPECS['hwloc_topology_load'] = int_status('hwloc_topology_load', -1)
SPECS['hwloc_bitmap_or'] = int_status('hwloc_bitmap_or', -1)
SPECS['hwloc_bitmap_set'] = int_status('hwloc_bitmap_set', -1)
SPECS['hwloc_set_area_membind'] = int_status('hwloc_set_area_membind', -1)


@spec('hwloc_bitmap_alloc', 'hwloc_bitmap_dup')
def _hw_balloc(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'hwbitmap', 'hwloc_bitmap_alloc', 'h')


@spec('hwloc_bitmap_free')
def _hw_bfree(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'hwbitmap', a[0])
    return [(st, None)]


# --------------------------------------------- UMF objects across modules
def create_model(name, kind, outidx):
    def f(eng, st, a, ins, ctx):
        if name in LOOKTHROUGH and isinstance(a[0], T) and a[0].k == 'g' and a[0].a[0] in eng.prog.glob \
                and eng.prog.glob[a[0].a[0]][0].const and eng.root is not None \
                and (eng.prog.glob[a[0].a[0]][1].rel == eng.root.tu or eng.prog.glob[a[0].a[0]][1].rel in eng.through):
            return None      # operations table known and part of the module being analysed
        def ok(s):
            o = mk('obj', kind, ins.id, ctx)
            eng.add_range(s, o, 'h', 0, None, o)
            ev(eng, 'acquire', s, kind, o, ins, ctx, tuple(a))
            if isinstance(a[outidx], T):
                eng.mstore(s, a[outidx], o)
        return do_status(eng, st, ins, ctx, name, ok)
    f.always = False
    SPECS[name] = f


LOOKTHROUGH = {'umfMemoryProviderCreate', 'umfMemtargetCreate'}


def destroy_model(name, kind):
    def f(eng, st, a, ins, ctx):
        do_release(eng, st, ins, ctx, kind, a[0])
        return [(st, 0 if ins.res else None)]
    f.always = False
    SPECS[name] = f


for _c, _d, _k, _i in (
        ('umfMemoryProviderCreate', 'umfMemoryProviderDestroy', 'provider', 2),
        ('umfPoolCreate', 'umfPoolDestroy', 'pool', 4),
        ('umfMemtargetCreate', 'umfMemtargetDestroy', 'memtarget', 2),
        ('umfMemtargetClone', 'umfMemtargetDestroy', 'memtarget', 1),
        ('umfMemspaceCreateFromNumaArray', 'umfMemspaceDestroy', 'memspace', 2),
        ('umfMemspaceClone', 'umfMemspaceDestroy', 'memspace', 1),
        ('umfMemspaceFilter', 'umfMemspaceDestroy', 'memspace', 2),
        ('umfMempolicyCreate', 'umfMempolicyDestroy', 'mempolicy', 1),
        ('umfOsMemoryProviderParamsCreate', 'umfOsMemoryProviderParamsDestroy', 'osparams', 0),
        ('umfFileMemoryProviderParamsCreate', 'umfFileMemoryProviderParamsDestroy', 'fileparams', 0),
        ('umfDevDaxMemoryProviderParamsCreate', 'umfDevDaxMemoryProviderParamsDestroy', 'daxparams', 0),
        ('umfTrackingMemoryProviderCreate', 'umfMemoryProviderDestroy', 'provider', 2)):
    create_model(_c, _k, _i)
    destroy_model(_d, _k)


def _umf_default(eng, st, a, ins, ctx):
    return None


def status_only(*names, **outs):
    for n in names:
        def mkf(n):
            def f(eng, st, a, ins, ctx):
                def ok(s):
                    for k in outs.get('outs', ()):
                        if isinstance(a[k], T):
                            eng.mstore(s, a[k], mk('sym', n + '.out', ins.id, ctx))
                return do_status(eng, st, ins, ctx, n, ok)
            f.always = False
            return f
        SPECS[n] = mkf(n)


@spec('umfMemoryProviderAlloc')
def _pv_alloc(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'umfMemoryProviderAlloc', a[1], ins, ctx)

    def ok(s):
        o = mk('obj', 'upmem', ins.id, ctx)
        eng.add_range(s, o, 'h', 0, None, o)
        ev(eng, 'acquire', s, 'upmem', o, ins, ctx, (a[0], a[1]))
        if isinstance(a[3], T):
            eng.mstore(s, a[3], o)
        ev(eng, 'upstream', s, 'alloc', a, o, ins, ctx)
    return do_status(eng, st, ins, ctx, 'umfMemoryProviderAlloc', ok)


@spec('umfMemoryProviderFree')
def _pv_free(eng, st, a, ins, ctx):
    out = []
    s0 = st.copy()
    r = failsym(eng, s0, ins, ctx, 'umfMemoryProviderFree')
    if ev(eng, 'failed', s0, 'umfMemoryProviderFree', ins, ctx, r) is not False:
        ev(eng, 'release_failed', s0, 'upmem', a[1], ins, ctx)
        ev(eng, 'upstream', s0, 'free_failed', a, None, ins, ctx)
        out.append((s0, r))
    do_release(eng, st, ins, ctx, 'upmem', a[1], (a[0], a[2]))
    ev(eng, 'upstream', st, 'free', a, None, ins, ctx)
    out.append((st, 0))
    return out


def upstream_status(name, op, outs=(), acq=None):
    def f(eng, st, a, ins, ctx):
        def ok(s):
            o = None
            for k in outs:
                if isinstance(a[k], T):
                    if acq:
                        o = mk('obj', acq, ins.id, ctx)
                        eng.add_range(s, o, 'h', 0, None, o)
                        ev(eng, 'acquire', s, acq, o, ins, ctx, (a[0],))
                    else:
                        o = mk('sym', name + '.out', ins.id, ctx)
                    eng.mstore(s, a[k], o)
            ev(eng, 'upstream', s, op, a, o, ins, ctx)
        return do_status(eng, st, ins, ctx, name, ok,
                         lambda s: ev(eng, 'upstream', s, op + '_failed', a, None, ins, ctx))
    f.always = False
    SPECS[name] = f


upstream_status('umfMemoryProviderGetRecommendedPageSize', 'q', (2,))
upstream_status('umfMemoryProviderGetMinPageSize', 'q', (2,))
upstream_status('umfMemoryProviderGetIPCHandleSize', 'q', (1,))
upstream_status('umfMemoryProviderPurgeLazy', 'purge')
upstream_status('umfMemoryProviderPurgeForce', 'purge')
upstream_status('umfMemoryProviderAllocationSplit', 'split')
upstream_status('umfMemoryProviderAllocationMerge', 'merge')
upstream_status('umfMemoryProviderOpenIPCHandle', 'open', (2,), 'ipcmap')


@spec('umfMemoryProviderGetIPCHandle')
def _pv_getipc(eng, st, a, ins, ctx):
    def ok(s):
        ev(eng, 'acquire', s, 'ipchandle', a[3], ins, ctx, (a[0],))
        ev(eng, 'upstream', s, 'get', a, None, ins, ctx)
        if isinstance(a[3], T):
            b, o = split(a[3])
            eng.add_range(s, b, 'h', o, 1 << 20, mk('sym', 'ipcdata', ins.id, ctx))
    return do_status(eng, st, ins, ctx, 'umfMemoryProviderGetIPCHandle', ok)


@spec('umfMemoryProviderPutIPCHandle')
def _pv_putipc(eng, st, a, ins, ctx):
    ev(eng, 'release', st, 'ipchandle', a[1], ins, ctx, (a[0],))
    ev(eng, 'upstream', st, 'put', a, None, ins, ctx)
    return do_status(eng, st, ins, ctx, 'umfMemoryProviderPutIPCHandle')


@spec('umfMemoryProviderCloseIPCHandle')
def _pv_closeipc(eng, st, a, ins, ctx):
    def ok(s):
        do_release(eng, s, ins, ctx, 'ipcmap', a[1], (a[0],))
        ev(eng, 'upstream', s, 'close', a, None, ins, ctx)

    def bad(s):
        ev(eng, 'release_failed', s, 'ipcmap', a[1], ins, ctx)
        ev(eng, 'upstream', s, 'close_failed', a, None, ins, ctx)
    return do_status(eng, st, ins, ctx, 'umfMemoryProviderCloseIPCHandle', ok, bad)


@spec('umfMemoryProviderGetLastNativeError')
def _pv_nat(eng, st, a, ins, ctx):
    for k in (1, 2):
        if isinstance(a[k], T):
            eng.mstore(st, a[k], mk('sym', 'native', ins.id, ctx, k))
    return [(st, None)]


@spec('umfMemoryProviderGetName')
def _pv_name(eng, st, a, ins, ctx):
    o = mk('sym', 'name', ins.id, ctx)
    return [(st, o)]


status_only('umfMemtargetGetCapacity', 'umfMemtargetGetId', 'umfMemtargetGetType', outs=(1,))
status_only('umfMemtargetGetBandwidth', 'umfMemtargetGetLatency', 'umfMemtargetCompare', outs=(2,))
status_only('umfMemspaceSortDesc')
status_only('umfOsMemoryProviderParamsSetNumaList', 'umfOsMemoryProviderParamsSetShmName',
            'umfOsMemoryProviderParamsSetPartitions')


@spec('umfGetTopology')
def _topo(eng, st, a, ins, ctx):
    s0 = st.copy()
    out = []
    if ev(eng, 'failed', s0, 'umfGetTopology', ins, ctx) is not False:
        out.append((s0, 0))
    o = mk('ld', mk('g', '<topology>'), 0, 0)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    out.append((st, o))
    return out


# IPC mapped-handle cache
@spec('umfIpcOpenedCacheCreate')
def _ioc_create(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'ipccache', 'umfIpcOpenedCacheCreate', 'h')


@spec('umfIpcOpenedCacheDestroy')
def _ioc_destroy(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    do_release(eng, st, ins, ctx, 'ipccache', a[0])
    return [(st, None)]


@spec('umfIpcOpenedCacheGet')
def _ioc_get(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []

    def ok(s):
        o = mk('sym', 'cacheval', ins.id, ctx)
        s.facts[o] = Inter(None, None, 1, None, frozenset([0]))
        ev(eng, 'acquire', s, 'ipcref', o, ins, ctx, None)
        eng.mstore(s, a[-1], o)
    return do_status(eng, st, ins, ctx, 'umfIpcOpenedCacheGet', ok)


@spec('umfIpcHandleMappedCacheRelease')
def _ioc_rel(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    do_release(eng, st, ins, ctx, 'ipcref', a[0])
    return [(st, 0)]


# ------------------------------------------------------------- ops tables
def slot_status(name, op, outs=(), acq=None, relidx=None, relkind=None, sink=None):
    def f(eng, st, a, ins, ctx):
        if sink is not None:
            ev(eng, 'size_sink', st, name, a[sink], ins, ctx)

        def ok(s):
            o = None
            for k in outs:
                if k < len(a) and isinstance(a[k], T):
                    if acq:
                        o = mk('obj', acq, ins.id, ctx)
                        eng.add_range(s, o, 'h', 0, None, o)
                        ev(eng, 'acquire', s, acq, o, ins, ctx, (a[0],))
                    else:
                        o = mk('sym', name + '.out', ins.id, ctx)
                    eng.mstore(s, a[k], o)
            if relidx is not None:
                do_release(eng, s, ins, ctx, relkind, a[relidx], (a[0],))
            ev(eng, 'slot_ok', s, name, a, o, ins, ctx)
        def bad(s):
            if relidx is not None:
                ev(eng, 'release_failed', s, relkind, a[relidx], ins, ctx)
        return do_status(eng, st, ins, ctx, 'slot:' + name, ok, bad)
    f.always = True
    SLOTS[name] = f


PV = 'umf_memory_provider_ops_t.'
slot_status(PV + 'initialize', 'init', (1,), 'prov_priv')
slot_status(PV + 'alloc', 'alloc', (3,), 'slotmem', sink=1)
slot_status(PV + 'free', 'free')
slot_status(PV + 'get_recommended_page_size', 'q', (2,))
slot_status(PV + 'get_min_page_size', 'q', (2,))
EXT = 'umf_memory_provider_ext_ops_t.'
for _n in ('purge_lazy', 'purge_force', 'allocation_merge', 'allocation_split'):
    slot_status(EXT + _n, _n)
IPC = 'umf_memory_provider_ipc_ops_t.'
slot_status(IPC + 'get_ipc_handle_size', 'q', (1,))
slot_status(IPC + 'get_ipc_handle', 'get', (3,))
slot_status(IPC + 'put_ipc_handle', 'put')
slot_status(IPC + 'open_ipc_handle', 'open', (2,))
slot_status(IPC + 'close_ipc_handle', 'close')


@slot(PV + 'finalize')
def _pv_fin(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'prov_priv', a[0])
    return [(st, None)]


@slot(PV + 'get_name')
def _pv_getname(eng, st, a, ins, ctx):
    return [(st, mk('sym', 'name', ins.id, ctx))]


@slot(PV + 'get_last_native_error')
def _pv_gln(eng, st, a, ins, ctx):
    for k in (1, 2):
        if isinstance(a[k], T):
            eng.mstore(st, a[k], mk('sym', 'native', ins.id, ctx, k))
    return [(st, None)]


PL = 'umf_memory_pool_ops_t.'
slot_status(PL + 'initialize', 'init', (2,), 'pool_priv')
slot_status(PL + 'free', 'free')


@slot(PL + 'finalize')
def _pl_fin(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'pool_priv', a[0])
    return [(st, None)]


@slot(PL + 'malloc', PL + 'calloc', PL + 'realloc', PL + 'aligned_malloc')
def _pl_alloc(eng, st, a, ins, ctx):
    s0 = st.copy()
    o = mk('sym', 'poolmem', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    return [(s0, 0), (st, o)]


CB = 'coarse_callbacks_t.'
slot_status(CB + 'alloc', 'alloc', (3,), 'slotmem', sink=1)
slot_status(CB + 'free', 'free', relidx=1, relkind='slotmem')
slot_status(CB + 'split', 'split')
slot_status(CB + 'merge', 'merge')

MT = 'umf_memtarget_ops_t.'
slot_status(MT + 'initialize', 'init', (1,), 'mt_priv')
slot_status(MT + 'clone', 'clone', (1,), 'mt_priv')
for _n, _o in (('get_capacity', (1,)), ('get_bandwidth', (2,)), ('get_latency', (2,)), ('get_id', (1,)),
               ('get_type', (1,)), ('compare', (2,))):
    slot_status(MT + _n, _n, _o)
slot_status(MT + 'pool_create_from_memspace', 'c', (4,), 'pool')
slot_status(MT + 'memory_provider_create_from_memspace', 'c', (4,), 'provider')


@slot(MT + 'finalize')
def _mt_fin(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'mt_priv', a[0])
    return [(st, None)]


# Level Zero
ZE = 'ze_ops_t.'
slot_status(ZE + 'zeMemAllocHost', 'alloc', (4,), 'zemem', sink=2)
slot_status(ZE + 'zeMemAllocDevice', 'alloc', (5,), 'zemem', sink=2)
slot_status(ZE + 'zeMemAllocShared', 'alloc', (6,), 'zemem', sink=3)
slot_status(ZE + 'zeMemFree', 'free', relidx=1, relkind='zemem')
slot_status(ZE + 'zeMemFreeExt', 'free', relidx=2, relkind='zemem')
slot_status(ZE + 'zeMemGetIpcHandle', 'get')
slot_status(ZE + 'zeMemPutIpcHandle', 'put')
slot_status(ZE + 'zeMemOpenIpcHandle', 'open', (4,), 'zeipcmap')
slot_status(ZE + 'zeMemCloseIpcHandle', 'close', relidx=1, relkind='zeipcmap')
slot_status(ZE + 'zeContextMakeMemoryResident', 'res')
slot_status(ZE + 'zeDeviceGetProperties', 'q')
slot_status(ZE + 'zeMemGetAllocProperties', 'q')

# oneTBB
TB = 'tbb_callbacks_t.'
slot_status(TB + 'pool_create_v1', 'create', (2,), 'tbbpool')


@slot(TB + 'pool_destroy')
def _tbb_d(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'tbbpool', a[0])
    r = mk('sym', 'tbb_destroy', ins.id, ctx)
    return [(st, r)]


@slot(TB + 'pool_malloc', TB + 'pool_realloc', TB + 'pool_aligned_malloc')
def _tbb_m(eng, st, a, ins, ctx):
    ev(eng, 'size_sink', st, 'tbb', a[-1] if len(a) == 2 else a[1], ins, ctx)
    s0 = st.copy()
    o = mk('sym', 'tbbmem', ins.id, ctx)
    st.facts[o] = Inter(None, None, 1, None, frozenset([0]))
    out = []
    if ev(eng, 'failed', s0, 'tbb_malloc', ins, ctx, 0) is not False:
        out.append((s0, 0))
    ev(eng, 'slot_ok', st, TB + 'pool_malloc', a, o, ins, ctx)
    out.append((st, o))
    return out


# libc heap / string functions that allocate for the caller
HEAP = ('malloc', 'calloc', 'realloc', 'free', 'cfree', 'strdup', 'strndup', 'wcsdup', '__strdup', '__strndup', 'asprintf', 'vasprintf',
        '__asprintf_chk', '__vasprintf_chk', 'posix_memalign', 'aligned_alloc', 'memalign', 'valloc', 'pvalloc', 'getline', 'getdelim',
        '__getdelim', 'realpath', '__realpath_chk', 'reallocarray', 'reallocf', 'open_memstream', 'canonicalize_file_name',
        'get_current_dir_name', 'tempnam', 'scandir', 'hwloc_bitmap_asprintf', 'hwloc_bitmap_list_asprintf',
        'hwloc_bitmap_taskset_asprintf', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', 'malloc_usable_size')


def fresh_int(name, nn=False):
    def f(eng, st, a, ins, ctx):
        t = mk('sym', name, ins.id, ctx)
        return [(st, t)]
    f.always = True
    return f


@spec('__errno_location', always=True)
def _errno(eng, st, a, ins, ctx):
    t = mk('g', '<errno>')
    return [(st, t)]


@spec('umfGetLastFailedMemoryProviderPtr')
def _glfp(eng, st, a, ins, ctx):
    return [(st, mk('g', '<last-failed-provider>'))]


def nonnull_args(idx):
    def f(eng, st, a, ins, ctx):
        for k in idx:
            if k < len(a) and not eng.check_deref(st, a[k], ins, ctx):
                return []
        return eng.opaque(st, ins.x['callee'][1] if isinstance(ins.x['callee'], tuple) else '?', a, ins, ctx)
    f.always = True
    return f


for _n, _i in (('strlen', (0,)), ('strcmp', (0, 1)), ('strncmp', (0, 1)), ('strncpy', (0, 1)), ('strcpy', (0, 1)),
               ('strstr', (0, 1)), ('strchr', (0,)), ('strnlen', (0,)), ('atol', (0,)),
               ('memcmp', (0, 1)), ('strncat', (0, 1)), ('memcpy', (0, 1))):
    SPECS[_n] = nonnull_args(_i)


@spec('strtol', 'strtoul', 'strtoll', 'strtoull', always=True)
def _strtol(eng, st, a, ins, ctx):
    if not eng.check_deref(st, a[0], ins, ctx):
        return []
    if isinstance(a[1], T):
        e = mk('sym', 'endptr', ins.id, ctx)
        st.facts[e] = Inter(None, None, 1, None, frozenset([0]))
        eng.mstore(st, a[1], e)
    return [(st, mk('sym', 'strtol', ins.id, ctx))]


@spec('fopen')
def _fopen(eng, st, a, ins, ctx):
    return do_alloc(eng, st, ins, ctx, 'FILE', 'fopen', 'h')


@spec('fclose')
def _fclose(eng, st, a, ins, ctx):
    do_release(eng, st, ins, ctx, 'FILE', a[0])
    return [(st, 0)]
