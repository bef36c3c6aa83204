"""C14 last-failed provider, C15 native errors, C16 last allocation error: per-thread failure records."""
import front
import common
import headers
import roles
import specs
from checks import check, sweep, configs, ENGINE_ASSUME
from check_paths import PATHNOTE
from check_struct import result_codes, PROV, EXTT, IPCT, POOL
from common import BaseChecker, Violation
from engine import T, mk, split, root_of, known_const, nonnull, Inter

SPECIFIC = 'UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC'
PROVS = {PROV, EXTT, IPCT}


def cellname(a):
    """(global, offset) of an address inside a global"""
    b, off = split(a)
    r = b
    if r.__class__ is T and r.k == 'g':
        return r.a[0], off
    return None


def tls(prog, name):
    gm = prog.glob.get(name)
    return gm is not None and gm[0].tls


# ------------------------------------------------------------------- C14
class LastFailedChecker(BaseChecker):
    """failing operation => record is this provider; anything else leaves the record alone"""
    CELL = ('<last-failed-provider>', 0)

    def failed(self, eng, st, name, ins, ctx, r=None):
        if name.startswith('slot:umf_memory_provider_') and not name.endswith('.initialize'):
            self.count('failing operations')
            st.ts[('opfail',)] = name[5:]
        return None

    def store(self, eng, st, addr, v, ins, ctx):
        if addr.__class__ is T and cellname(addr) == self.CELL:
            self.count('stores to the record')
            st.ts[('rec',)] = 1

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        op = st.ts.get(('opfail',))
        wrote = ('rec',) in st.ts
        if op is not None:
            self.count('failing exits')
            v = st.mem.get((mk('g', '<last-failed-provider>'), 0))
            if not wrote:
                self.bad('record-missing', fn.name, ins, f'{fn.name} returns after {op} failed without recording the provider as last failed', st)
            elif v is not eng.root_args[0]:
                self.bad('record-wrong', fn.name, ins, f'{fn.name} records something other than the provider whose {op} failed', st)
        elif wrote:
            self.bad('record-touched', fn.name, ins, f'{fn.name} changes the last-failed record although no operation of a provider failed', st)


class RecordChecker(BaseChecker):
    """the accessors of the record"""

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('accessor exits')
        if fn.name == 'umfGetLastFailedMemoryProviderPtr':
            c = cellname(ret) if ret.__class__ is T else None
            if c is None or not tls(self.prog, c[0]):
                self.bad('record-not-per-thread', fn.name, ins, 'the last-failed record is not thread-local', st)
        else:
            ok = ret.__class__ is T and ret.k == 'ld' and ret.a[0].__class__ is T and ret.a[0].k == 'g' and \
                (ret.a[0].a[0] == '<last-failed-provider>' or tls(self.prog, ret.a[0].a[0]))
            if not ok:
                self.bad('record-not-returned', fn.name, ins, f'{fn.name} does not return the record', st)


def provider_roots(prog):
    """public functions that run an operation of the provider they are given"""
    pub = common.public_names(prog)
    out = []
    for f in prog.fn.values():
        if f.tu.endswith('memory_provider.c') and f.name in pub and f.name.startswith('umfMemoryProvider') \
                and f.name not in ('umfMemoryProviderCreate', 'umfMemoryProviderDestroy'):
            out.append(f)
    # public provider functions defined elsewhere
    for f in prog.fn.values():
        if f.name in pub and f.name.startswith('umfMemoryProvider') and f not in out and \
                f.name not in ('umfMemoryProviderCreate', 'umfMemoryProviderDestroy', 'umfMemoryProviderCreateFromMemspace'):
            out.append(f)
    return out


@check('C14', 'path-sensitive dataflow of the thread-local failure record over LLVM IR', PATHNOTE)
def c14(rep):
    rep.explanation = (
        'Every public umfMemoryProvider* function is followed over both outcomes of every provider operation it runs: where '
        'an operation failed, the per-thread record must hold exactly the provider handle that was passed in at every exit; '
        'on every other exit the record must not have been written. The record must be a thread-local object and the '
        'accessors must hand out exactly it. Nothing else in the library may write the record.')
    rep.rules = ['record-missing', 'record-wrong', 'record-touched', 'record-not-per-thread', 'record-not-returned', 'record-written-elsewhere']
    rep.assumptions = ENGINE_ASSUME
    res = sweep(rep, LastFailedChecker, configs(rep, proxy=False), rootsel=provider_roots)
    ev = rep.stats['events']
    rep.need('public provider functions', len({u for c, u, r in res}), 14)
    rep.need('failing exits', ev.get('failing exits', 0), 11)
    for c in ('full', 'nohwloc'):
        prog = front.load(c)
        fs = [f for f in prog.fn.values() if f.name in ('umfGetLastFailedMemoryProviderPtr', 'umfGetLastFailedMemoryProvider')]
        rep.need('accessors', len(fs), 2)
        common.explore(prog, fs, RecordChecker, rep)
        # who else takes the address of the record
        for f in prog.fn.values():
            if f.tu.endswith('memory_provider.c'):
                continue
            mod = prog.mods[f.tu]
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op == 'call' and i.x['callee'] == ('g', 'umfGetLastFailedMemoryProviderPtr'):
                        rep.add(common.vio('record-written-elsewhere', f'record-written-elsewhere|{f.name}', i,
                                           f'{f.name} has access to the last-failed record outside the provider interface'))
    rep.obligations = ev.get('exits', 0)


# ------------------------------------------------------------------- C16
def role_fns(prog, struct, members):
    ro = roles.roles(prog)
    out = []
    for f in prog.fn.values():
        for t in sorted(ro.get(f.uname, ())):
            if t[0] == struct and t[1] in members:
                out.append((f, t[1]))
    return out


class QueryChecker(BaseChecker):
    """which record the last-error query returns"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.cells = set()

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('query exits')
        if ret.__class__ is T and ret.k == 'ld' and ret.a[0].__class__ is T and ret.a[0].k == 'g' and tls(self.prog, ret.a[0].a[0]):
            self.cells.add((ret.a[0].a[0], ret.a[1]))
        else:
            self.bad('query', fn.name, ins, f'{fn.name} returns something other than a thread-local record ({ret!r})', st)

    def result(self):
        return {'counts': self.counts, 'cells': self.cells, 'tu': self.root.tu}


def pool_cells(rep, prog):
    c = prog.__dict__.get('_poolcells')
    if c is None:
        c = prog._poolcells = {}
        for u, r in common.explore(prog, [f for f, m in role_fns(prog, POOL, ('get_last_allocation_error',))], QueryChecker, rep):
            c.setdefault(r['tu'], set()).update(r['cells'])
    return c


class ReasonChecker(BaseChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.cells = variant

    def store(self, eng, st, addr, v, ins, ctx):
        if addr.__class__ is T:
            c = cellname(addr)
            if c in self.cells:
                st.ts[('stored', c)] = ins.fn.name

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        if known_const(st, ret) != 0:
            return
        self.count('NULL exits')
        for c in self.cells:
            if ('stored', c) not in st.ts:
                self.bad('no-reason', fn.name, ins, f'{fn.name} returns NULL without recording why', st)
                return
            v = st.mem.get((mk('g', c[0]), c[1]))
            k = known_const(st, v) if v is not None else None
            if k == 0:
                self.bad('reason-success', fn.name, ins, f'{fn.name} returns NULL while the recorded reason says success', st)
            elif k is None and v is not None and not nonnull(st, v):
                self.bad('reason-unknown', fn.name, ins, f'{fn.name} returns NULL while the recorded reason ({v!r}) may be success', st)
            elif k is not None and k not in set(result_codes().values()):
                self.bad('reason-code', fn.name, ins, f'{fn.name} records {k}, which is no result code', st)


@check('C16', 'path-sensitive dataflow of the thread-local allocation-error record over LLVM IR', PATHNOTE)
def c16(rep):
    rep.explanation = (
        'For every shipped pool the record its last-allocation-error query returns is determined from the query (it must be '
        'a thread-local object); then every path of malloc, calloc, realloc and aligned_malloc that returns NULL must have '
        'stored a result code other than success into exactly that record, as its last store.')
    rep.rules = ['query', 'no-reason', 'reason-success', 'reason-unknown', 'reason-code']
    rep.assumptions = ENGINE_ASSUME + ['realloc to size zero and frees of NULL count as failing calls when they return NULL']
    np = 0

    def sel(prog):
        cells = pool_cells(rep, prog)
        return [(f, frozenset(cells.get(f.tu, ()))) for f, m in role_fns(prog, POOL, ('malloc', 'calloc', 'realloc', 'aligned_malloc'))]
    res = sweep(rep, ReasonChecker, configs(rep), rootsel=sel)
    ev = rep.stats['events']
    rep.need('pool allocation operations', len({u for c, u, r in res}), 12)
    rep.need('pools', len(pool_cells(rep, front.load('full'))), 3)
    rep.need('NULL exits', ev.get('NULL exits', 0), 40)
    rep.obligations = ev.get('NULL exits', 0)


# ------------------------------------------------------------------- C15
class NativeQuery(BaseChecker):
    """which record get_last_native_error reports, and what it does with every code that can be in it"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.cells = set()
        self.errcells = set()

    def setup(self, eng, f, st, variant):
        args = [mk('arg', p[1:], f.uname) for p in f.params]
        from engine import assume
        for k in (1, 2):
            assume(st, 'ne', args[k], 0, 64)
        if variant is not None:
            (g, off), code = variant
            st.mem[(mk('g', g), off)] = code
        return args

    def load(self, eng, st, addr, val, ins, ctx):
        if val.__class__ is T and val.k == 'ld' and val.a[0].__class__ is T and val.a[0].k == 'g' and tls(self.prog, val.a[0].a[0]):
            self.errcells.add((val.a[0].a[0], val.a[1]))

    def deref(self, eng, st, addr, ins, ctx):
        if addr.__class__ is not T:
            return
        b, off = split(addr)
        if b.__class__ is not T or b.k != 'g' or off.__class__ is not int:
            return
        gm = self.prog.glob.get(b.a[0])
        if gm is None or gm[0].ext:
            return
        size = gm[1].size(gm[0].ty)
        self.count('table accesses')
        if off < 0 or off >= size:
            self.bad('table-overrun', f'{ins.fn.name}|{gm[0].name}', ins, f'{ins.fn.name} reads {gm[0].name} at offset {off}, outside its {size} bytes', st)

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('query exits')
        args = eng.root_args
        v = eng.mload(st, args[2])
        if self.variant is None:
            if v.__class__ is T and v.k == 'ld' and v.a[0].__class__ is T and v.a[0].k == 'g' and tls(self.prog, v.a[0].a[0]):
                self.cells.add((v.a[0].a[0], v.a[1]))
            else:
                self.cells.add(None)
            return
        code = self.variant[1]
        if known_const(st, v) != code:
            self.bad('query-code', f'{fn.name}|{code}', ins, f'{fn.name} does not report the recorded native error {code}', st)
        m = eng.mload(st, args[1])
        if known_const(st, m) == 0 or m.__class__ is T and m.k in ('uninit', 'ld') and root_of(split(m)[0]) is args[1]:
            self.bad('query-message', f'{fn.name}|{code}', ins, f'{fn.name} yields no message for the native error {code}', st)

    def result(self):
        return {'counts': self.counts, 'cells': self.cells, 'tu': self.root.tu, 'errcells': self.errcells}


# operation -> what the name of the recorded code may say failed
STEP = {'alloc': ('ALLOC_FAILED', 'ADDRESS_NOT_ALIGNED', 'BIND_FAILED'), 'free': ('FREE_FAILED',), 'purge_lazy': ('PURGE_LAZY_FAILED',),
        'purge_force': ('PURGE_FORCE_FAILED',), 'open_ipc_handle': ('ALLOC_FAILED',), 'close_ipc_handle': ('FREE_FAILED',),
        'initialize': ('TOPO_DISCOVERY_FAILED', 'ALLOC_FAILED')}


class NativeChecker(BaseChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.member, self.cells, self.codes = variant
        self.stored = {}
        self.usederrno = set()

    def failed(self, eng, st, name, ins, ctx, r=None):
        self.count('failed steps')
        st.ts[('step',)] = name
        return None

    def errno(self, st):
        return st.mem.get((mk('g', '<errno>'), 0))

    def store(self, eng, st, addr, v, ins, ctx):
        if addr.__class__ is not T:
            return
        c = cellname(addr)
        if c is None or not any(c[0] == x[0] for x in self.cells):
            return
        if c in self.cells:
            st.ts[('nat',)] = (v, st.ts.get(('step',)))
            k = known_const(st, v)
            if k is not None:
                self.stored[k] = (ins.fn.file, ins.line, ins.fn.name)
            return
        if v.__class__ is T and v.k == 'sym' and v.a[0].startswith('errno'):
            # the system error code
            step = st.ts.get(('step',))
            self.count('recorded errno values')
            what = v.a[0]
            self.usederrno.add(what[6:])
            if what.startswith('errno~'):
                self.bad('errno-clobbered', f'{self.root.name}|{ins.fn.name}|{what}', ins,
                         f'{self.root.name} records the errno left behind by {what[6:]} instead of that of the failed step {step}', st)
            elif step is not None and what != 'errno:' + step and step in specs.SET_ERRNO:
                self.bad('errno-other-step', f'{self.root.name}|{what}', ins,
                         f'{self.root.name} records the errno of {what[6:]} although {step} failed last', st)

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        nat = st.ts.get(('nat',))
        if known_const(st, ret) != result_codes()[SPECIFIC]:
            return
        self.count('provider-specific exits')
        if nat is None:
            self.bad('native-missing', fn.name, ins, f'{fn.name} reports a provider-specific error without recording a native error '
                     f'(last failed step: {st.ts.get(("step",))})', st)
            return
        v = nat[0]
        k = known_const(st, v)
        if k is None:
            if v.__class__ is T and not nonnull(st, v):
                self.bad('native-unknown', fn.name, ins, f'{fn.name} records a native error that may be success', st)
            return
        if self.codes:
            names = [n for n, c in self.codes if c == k]
            if not names or names[0].endswith('_RESULT_SUCCESS'):
                self.bad('native-code', fn.name, ins, f'{fn.name} records the native code {k}, which names no error of this provider', st)
            elif self.member in STEP and not any(names[0].endswith(x) for x in STEP[self.member]):
                self.bad('native-step', f'{fn.name}|{names[0]}', ins, f'{fn.name} ({self.member}) records {names[0]}, which names a different step', st)

    def result(self):
        return {'counts': self.counts, 'stored': self.stored, 'root': self.root.uname, 'tu': self.root.tu, 'errno': self.usederrno}


class ErrnoKeeper(BaseChecker):
    """functions whose callers rely on errno after a failure must not disturb it in between"""

    def failed(self, eng, st, name, ins, ctx, r=None):
        st.ts[('step',)] = name
        return None

    def root_exit(self, eng, st, fn, ret, ins):
        step = st.ts.get(('step',))
        if step not in specs.SET_ERRNO:
            return
        c = known_const(st, ret)
        if fn.rty.k == 'ptr' and c != 0 or fn.rty.k == 'int' and (c == 0 or c is not None and c > 2 and fn.enumret is None):
            return
        if fn.rty.k == 'int' and c is None and not nonnull(st, ret):
            return
        self.count('failing exits with errno')
        v = st.mem.get((mk('g', '<errno>'), 0))
        if v.__class__ is T and v.k == 'sym' and v.a[0].startswith('errno~'):
            self.bad('errno-disturbed', f'{fn.name}|{step}', ins, f'{fn.name} fails because of {step} and leaves the errno of {v.a[0][6:]} for its caller', st)


def native_cells(rep, prog):
    c = prog.__dict__.get('_nativecells')
    if c is None:
        c = prog._nativecells = {}
        for u, r in common.explore(prog, [f for f, m in role_fns(prog, PROV, ('get_last_native_error',))], NativeQuery, rep):
            if None not in r['cells'] and r['cells']:
                c.setdefault(r['tu'], (set(), u))[0].update(r['cells'])
    return c


def codes_for(tu):
    """enumerators of the provider's native error codes, by the header that belongs to the source"""
    import os
    base = os.path.basename(tu).replace('.c', '.h')
    out = {}
    for k, n, t, f, d in headers.decls():
        if k == 'EnumDecl' and f.endswith('/' + base) and n and n.endswith('_native_error'):
            out.update(headers.enums()[n])
    return tuple(sorted(out.items()))


@check('C15', 'path-sensitive dataflow of the thread-local native-error record and of errno over LLVM IR', PATHNOTE)
def c15(rep):
    rep.explanation = (
        'The record each provider reports is determined from its get_last_native_error operation. Every path of every '
        'provider operation that ends with the provider-specific status must have stored a native code into that record that '
        'is one of the provider\'s error codes and names the kind of operation that failed; a stored errno must be the one left '
        'by the failed step, not by logging or closing in between (helpers that fail through errno must preserve it). '
        'The query is then followed for the initial value and every code the code stores: table accesses in range, code '
        'reported unchanged, message set. Records are thread-local.')
    rep.rules = ['native-missing', 'native-unknown', 'native-code', 'native-step', 'errno-clobbered', 'errno-other-step', 'errno-disturbed',
                 'table-overrun', 'query-code', 'query-message', 'record-not-per-thread']
    rep.assumptions = ENGINE_ASSUME
    MEMB = ('initialize', 'alloc', 'free', 'get_recommended_page_size', 'get_min_page_size', 'purge_lazy', 'purge_force', 'allocation_merge',
            'allocation_split', 'get_ipc_handle_size', 'get_ipc_handle', 'put_ipc_handle', 'open_ipc_handle', 'close_ipc_handle')

    def sel(prog):
        cells = native_cells(rep, prog)
        out = []
        for s in (PROV, EXTT, IPCT):
            for f, m in role_fns(prog, s, MEMB):
                if f.tu in cells and not f.tu.endswith('provider_tracking.c'):
                    out.append((f, (m, frozenset(cells[f.tu][0]), codes_for(f.tu))))
        return out
    res = sweep(rep, NativeChecker, configs(rep, proxy=False), rootsel=sel)
    ev = rep.stats['events']
    rep.need('provider operations', len(res), 60)
    rep.need('provider-specific exits', ev.get('provider-specific exits', 0), 15)
    n = ev.get('exits', 0)
    for c in ('full', 'nohwloc'):
        prog = front.load(c)
        cells = native_cells(rep, prog)
        rep.need('providers with a native-error record in ' + c, len(cells), {'full': 5, 'nohwloc': 1}[c])
        vs = []
        for tu, (cs, u) in sorted(cells.items()):
            f = prog.fn[u]
            vals = set()
            for cell in cs:
                g = prog.glob[cell[0]]
                init = glob_const(prog, cell)
                vals = {init} if init is not None else set()
                for cc, uu, r in res:
                    if r['tu'] == tu:
                        vals |= set(r['stored'])
                for nme, v in codes_for(tu):
                    vals.add(v)
                for v in sorted(x for x in vals if x is not None):
                    vs.append((f, (cell, v)))
        for u, r in common.explore(prog, vs, NativeQuery, rep):
            n += r['counts'].get('query exits', 0)
        used = set().union(*(r['errno'] for cc, uu, r in res))
        used |= {x for a, x in (('utils_mmap', 'utils_mmap_file'), ('munmap', 'utils_munmap')) if a in used}
        fs = [f for f in prog.fn.values() if f.name in used]
        rep.need('helpers whose errno is recorded', len(fs), 3)
        for u, r in common.explore(prog, fs, ErrnoKeeper, rep):
            n += r['counts'].get('failing exits with errno', 0)
    rep.obligations = n


def glob_const(prog, cell):
    from engine import Engine, Checker
    e = Engine(prog, Checker())
    g, mod = prog.glob[cell[0]]
    m = {}
    e.flatten(mod, g.ty, g.init, 0, m)
    v = m.get(cell[1])
    if v is None and any(lo <= cell[1] < hi for lo, hi in m.get('zero', ())):
        v = 0
    return v if v.__class__ is int else None
