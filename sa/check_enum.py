"""C25: public enumerations - unknown values never take effect, known ones are all handled and converted to their namesake."""
import front
import common
import headers
import roles
from checks import check, configs, module_roots, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import BaseChecker, Violation, explore
from engine import T, mk, split, root_of, known_const, nonnull, assume

# public functions that take a combination of flags as a plain integer
FLAGPARAMS = {'protection': 'umf_mem_protection_flags_t'}
NOTVALUES = ('_MAX', '_FORCE_UINT32')     # end markers, not settings
# how the native form of a setting looks (mman.h, hwloc.h, ze_api.h); several: depends on other parameters
PROT = {'UMF_PROTECTION_NONE': 0, 'UMF_PROTECTION_READ': 1, 'UMF_PROTECTION_WRITE': 2, 'UMF_PROTECTION_EXEC': 4}
NATIVE = {
    'umf_memory_visibility_t': {'UMF_MEM_MAP_PRIVATE': {2}, 'UMF_MEM_MAP_SHARED': {1}},
    'umf_numa_mode_t': {'UMF_NUMA_MODE_DEFAULT': {0}, 'UMF_NUMA_MODE_BIND': {2}, 'UMF_NUMA_MODE_INTERLEAVE': {2, 3},
                        'UMF_NUMA_MODE_PREFERRED': {2}, 'UMF_NUMA_MODE_SPLIT': {2}, 'UMF_NUMA_MODE_LOCAL': {2}},
    'umf_level_zero_memory_provider_free_policy_t': {
        'UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFAULT': {0},
        'UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_BLOCKING_FREE': {1},
        'UMF_LEVEL_ZERO_MEMORY_PROVIDER_FREE_POLICY_DEFER_FREE': {2}},
    # another public enumeration: INTERLEAVE -> UMF_NUMA_MODE_INTERLEAVE etc.
    'umf_mempolicy_membind_t': 'umf_numa_mode_t',
}
# the function of the native interface that serves a setting
SERVES = {'umf_usm_memory_type_t': {'UMF_MEMORY_TYPE_HOST': 'Host', 'UMF_MEMORY_TYPE_DEVICE': 'Device', 'UMF_MEMORY_TYPE_SHARED': 'Shared'}}
# enumerators that name "nothing" and may be refused
REFUSABLE = ('_UNKNOWN',)
# operations and the advice they must give the system: MADV_FREE / MADV_DONTNEED
ADVICE = {'purge_lazy': {8}, 'purge_force': {4}}


class Case:
    """value of the enumeration at a place: arg k, or the member (struct, field) of what the function is given"""

    def __init__(self, place, enum, value, name):
        self.place, self.enum, self.value, self.name = place, enum, value, name

    def __repr__(self):
        return f'{self.place}={self.name}'


def values(enum):
    e = {n: v for n, v in headers.enums()[enum].items() if not any(n.endswith(x) for x in NOTVALUES)}
    return e


def cases(place, enum):
    e = values(enum)
    out = []
    if enum in FLAGPARAMS.values():
        allbits = 0
        for v in e.values():
            allbits |= v
        for m in range(1, allbits + 1):
            if m & ~allbits == 0:
                out.append(Case(place, enum, m, '|'.join(n for n in sorted(e) if e[n] & m)))
        for v in (allbits + 1, (allbits + 1) << 1, 1 << 30, (allbits + 1) | 1, 0xffffffff):
            out.append(Case(place, enum, v, 'out'))
    else:
        for n, v in sorted(e.items()):
            out.append(Case(place, enum, v, n))
        out.append(Case(place, enum, None, 'out'))
        for v in (max(e.values()) + 1, -1 & 0xffffffff):
            out.append(Case(place, enum, v, 'out'))
    return out


def peel(v):
    while v.__class__ is T and v.k == 'cast':
        v = v.a[0] if v.a[0].__class__ is T else v.a[1] if len(v.a) > 1 and v.a[1].__class__ is T else None
    return v


class EnumChecker(BaseChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.case = variant
        self.okn = self.failn = self.unseen = 0
        self.oksite = None
        self.dies = {}         # assertions that fail after the value was looked at
        self.fields = {}       # members that hold the raw value after a success
        self.consts = {}       # member -> constants stored there on paths that looked at the value and succeeded
        self.calls = {}        # (callee, argument) -> constants

    def fix(self, st, v):
        c = self.case
        if c.value is None:
            for e in headers.enums()[c.enum].values():
                assume(st, 'ne', v, e, 32)
        else:
            assume(st, 'eq', v, c.value, 32)

    def setup(self, eng, fn, st, variant):
        eng.plain = {n for n in eng.specs if n.startswith('utils_translate')}
        args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        c = self.case
        if isinstance(c.place, int):
            v = args[c.place]
            self.fix(st, v)
            st.ts[('val', v)] = 1
            st.ts['seen'] = 1
        return args

    def load(self, eng, st, addr, val, ins, ctx):
        c = self.case
        if not isinstance(c.place, tuple) or addr.__class__ is not T:
            return
        if eng.tagof.get(addr) == c.place or ins.tag == c.place:
            if val.__class__ is T and ('val', val) not in st.ts and val.k == 'ld':
                self.fix(st, val)
                st.ts[('val', val)] = 1
                st.ts['seen'] = 1
                self.count('reads of the setting')

    def store(self, eng, st, addr, v, ins, ctx):
        t = ins.tag or eng.tagof.get(addr)
        if 'seen' not in st.ts or t is None:
            return
        p = v if v.__class__ is int else peel(v)
        if p.__class__ is T and ('val', p) in st.ts and ('val', p) != 1:
            st.ts[('raw', t)] = 1
        c = known_const(st, v)
        if c is not None:
            st.ts[('c', t)] = c

    def call(self, eng, st, name, args, ins, ctx):
        if 'seen' in st.ts and name in ('__assert_fail', 'abort'):
            self.dies.setdefault((ins.fn.uname, ins.line), (ins.fn.file, ins.line, ins.fn.name, st.tracelist()))
        elif 'seen' in st.ts and not name.startswith('umf_ba_'):
            for i, a in enumerate(args):
                c = known_const(st, a)
                if c is not None:
                    self.calls.setdefault((name, i), set()).add(c)
            self.calls.setdefault((name, None), set()).add(0)
        return None

    def gckeep(self, st):
        return [k[1] for k in st.ts if k.__class__ is tuple and k[0] == 'val']

    def root_exit(self, eng, st, fn, ret, ins):
        if 'seen' not in st.ts:
            self.unseen += 1
            return
        self.count('exits')
        c = known_const(st, ret) if ret is not None else None
        if fn.enumret is not None and fn.enumret[0] and 'umf_result' in fn.enumret[0]:
            ok = c == 0 or (c is None and not nonnull(st, ret))
        elif fn.rty.k == 'ptr':
            ok = c != 0
        else:
            ok = True
        if not ok:
            self.failn += 1
            return
        self.okn += 1
        if self.oksite is None:
            self.oksite = (ins.fn.file, ins.line, ins.fn.name, st.tracelist())
        for k, v in st.ts.items():
            if k.__class__ is tuple and k[0] == 'raw':
                self.fields[k[1]] = 1
            elif k.__class__ is tuple and k[0] == 'c':
                self.consts.setdefault(k[1], set()).add(v)

    def result(self):
        return {'counts': self.counts, 'case': (self.case.place, self.case.enum, self.case.value, self.case.name), 'ok': self.okn, 'fail': self.failn,
                'unseen': self.unseen, 'fields': sorted(self.fields), 'consts': self.consts, 'calls': self.calls, 'site': self.oksite, 'dies': self.dies}


def entries(prog):
    """(function, parameter index, enumeration) of every public function that is given an enumeration value"""
    import re
    ens = headers.enums()
    pub = common.public_names(prog)
    out = []
    for d in headers.decls():
        k, n, t, f, j = d
        if k != 'FunctionDecl' or n not in pub or n not in prog.byname:
            continue
        for i, p in enumerate(x for x in j.get('inner', ()) if x['kind'] == 'ParmVarDecl'):
            ty = (p.get('type') or {}).get('qualType', '').replace('enum ', '')
            if ty in ens and not ty.startswith('umf_result') and not ty.startswith('umf_ctl_query'):
                out.append((prog.byname[n][0], i, ty))
            elif ty == 'unsigned int' or ty == 'unsigned':
                e = FLAGPARAMS.get(p.get('name'))
                if e:
                    out.append((prog.byname[n][0], i, e))
    seen = set()
    r = []
    for f, i, e in out:
        if (f.uname, i) not in seen:
            seen.add((f.uname, i))
            r.append((f, i, e))
    return r


def readers(prog, roots, tag):
    """entry points from which a read of the member is reachable without crossing a modelled interface"""
    import specs
    hit = set()
    for f in prog.fn.values():
        for b in f.blocks.values():
            if any(i.op == 'load' and i.tag == tag for i in b.insts):
                hit.add(f.uname)
                break
    callers = common.direct_callers(prog)
    todo = list(hit)
    while todo:
        u = todo.pop()
        for c in callers.get(u, ()):
            if c not in hit:
                hit.add(c)
                todo.append(c)
    return [f for f in roots if f.uname in hit]


def line(prog, fname):
    f = prog.byname[fname][0]
    return f.file, f.line


def decide(rep, prog, roots, stats):
    """one configuration"""
    byplace = {}
    def add(place, enum, rs):
        out = []
        for f in rs:
            for c in cases(place, enum):
                out.append((f, c))
        return out
    ents = entries(prog)
    rep.need('public functions taking a setting', len(ents), 8 if prog.config == 'full' else 4)
    work = []
    for f, i, e in ents:
        work += add(i, e, [f])
    level = 0
    done = set()
    allres = {}
    origin = {}
    while work and level < 6:
        res = explore(prog, work, EnumChecker, rep, unroll=1, maxstates=40)
        rep.stats['runs'] = rep.stats.get('runs', 0) + len(res)
        nxt = {}
        for u, r in res:
            rep.merge_stats({'events': r['counts']})
            place, enum, value, name = r['case']
            g = allres.setdefault((u, place, enum), {})
            g.setdefault(name, []).append(r)
            for t in r['fields']:
                t = tuple(t)
                nxt.setdefault((t, enum), set()).add('out' if name == 'out' else 'in')
                origin.setdefault((t, enum), (u, place))
        work = []
        for (t, enum), kinds in sorted(nxt.items()):
            for k in kinds:
                byplace.setdefault((t, enum), set()).add(k)
            if (t, enum) in done:
                continue
            done.add((t, enum))
            rs = readers(prog, roots, t)
            work += add(t, enum, rs)
        level += 1
    stats['members'] = sorted({'.'.join(t) + ':' + e for t, e in done})
    for (u, place, enum), g in sorted(allres.items(), key=str):
        judge(rep, prog, u, place, enum, g, byplace)
    # over all places one enumeration passes: the conversion
    convert(rep, prog, allres, ents, origin)
    return len(allres)


def site(prog, u, r=None):
    if r is not None and r.get('site'):
        return r['site'][:3]
    f = prog.fn[u]
    return f.file, f.line, f.name


def vio(rep, rule, prog, u, msg, r=None, key=None):
    fl, ln, fn = site(prog, u, r)
    rep.add(Violation(rule, f'{rule}|{key or prog.fn[u].name}', fl, ln, fn, msg, r['site'][3] if r and r.get('site') else (), prog.fn[u].name))


def judge(rep, prog, u, place, enum, g, byplace):
    f = prog.fn[u]
    isarg = isinstance(place, int)
    where = f'parameter {place + 1}' if isarg else 'member ' + '.'.join(place)
    rep.obligations += 1
    # a member only ever holds an unknown value if whoever writes it accepts one
    if f.name.endswith('Destroy') or any(t[1] == 'finalize' for t in roles.roles(prog).get(u, ())):
        rep.stats['destructions'] = rep.stats.get('destructions', 0) + 1     # not a use of the setting
    elif isarg or 'out' in byplace.get((place, enum), ()):
        for r in g.get('out', ()):
            if r['ok'] and not r['fields']:
                vv = 'a value outside ' + enum if r['case'][2] is None else str(r['case'][2])
                vio(rep, 'unknown-accepted', prog, u, f'{f.name} succeeds with {vv} in {where} without refusing it or passing it on', r,
                    f'{f.name}:{where}')
                break
        # nor may it bring the process down: assertions that only values outside the enumeration reach
        known = {k for n, rs in g.items() if n != 'out' for r in rs for k in r['dies']}
        for r in g.get('out', ()):
            for k, s in sorted(r['dies'].items()):
                if k not in known:
                    vio(rep, 'unknown-aborts', prog, u, f'a value outside {enum} in {where} of {f.name} runs into an assertion instead of being refused',
                        {'site': s}, f'{f.name}:{where}:{s[2]}')


def convert(rep, prog, allres, ents, origin):
    for f0, i0, enum in ents:
        # everything the setting given to this function reaches
        places = {(f0.uname, i0)}
        reach = [(f0.uname, i0, enum)]
        tags = set()
        n = 0
        while n < len(reach):
            u, p, e = reach[n]
            n += 1
            for name, rs in allres.get((u, p, e), {}).items():
                for r in rs:
                    for t in r['fields']:
                        t = tuple(t)
                        if t in tags:
                            continue
                        tags.add(t)
                        for (u2, p2, e2) in allres:
                            if p2 == t and e2 == enum:
                                reach.append((u2, p2, e2))
        ev = values(enum)
        # every known value can be set
        g = allres.get((f0.uname, i0, enum), {})
        if not any(r['ok'] for rs in g.values() for r in rs):
            rep.stats['not_supported_here'] = rep.stats.get('not_supported_here', 0) + 1
            continue        # the feature is compiled out: C24 looks at the stubs
        for name, rs in sorted(g.items()):
            if name == 'out' or any(name.endswith(x) for x in REFUSABLE):
                continue
            rep.obligations += 1
            if not any(r['ok'] for r in rs):
                vio(rep, 'known-refused', prog, f0.uname, f'{f0.name} never succeeds with {name}', None, f'{f0.name}:{name}')
        if len(reach) == 1:
            continue
        expect = NATIVE.get(enum)
        if enum == 'umf_mem_protection_flags_t':
            expect = {}
            for name in g:
                if name != 'out':
                    v = 0
                    for n1 in name.split('|'):
                        v |= PROT[n1]
                    expect[name] = {v}
        elif isinstance(expect, str):
            other = values(expect)
            expect = {}
            for a in ev:
                suf = a.rsplit('_', 1)[1]
                m = [v for b, v in other.items() if b.rsplit('_', 1)[1] == suf]
                if m:
                    expect[a] = {m[0]}
        if expect is not None:
            rep.obligations += len(expect)
            vec = {}       # channel -> name -> constants
            for k in reach[1:]:
                for name, rs in allres[k].items():
                    if name == 'out':
                        continue
                    for r in rs:
                        if not r['ok']:
                            continue
                        for t, cs in r['consts'].items():
                            vec.setdefault((k[0], 'member', t), {}).setdefault(name, set()).update(cs)
                        for t, cs in r['calls'].items():
                            if t[1] is not None:
                                vec.setdefault((k[0], 'call', t), {}).setdefault(name, set()).update(cs)
            # a channel carries a conversion when different enumerators send different constants through it
            vec = {ch: m for ch, m in vec.items() if len({frozenset(v) for v in m.values() if v}) > 1}
            if not vec:
                # what accepts the setting never converts it in this configuration
                rep.stats['unconverted'] = sorted(set(rep.stats.get('unconverted', ())) | {f0.name})
                continue
            best = None
            for ch, m in vec.items():
                hit = sum(1 for n1 in expect if m.get(n1) == expect[n1])
                if best is None or hit > best[0]:
                    best = (hit, ch, m)
            rep.stats.setdefault('conversions', []).append(f'{f0.name}: {best[1]}')
            if best[0] < len(expect):
                wrong = [n1 for n1 in expect if best[2].get(n1) != expect[n1]]
                vio(rep, 'wrong-conversion', prog, best[1][0], f'{prog.fn[best[1][0]].name} does not turn {", ".join(wrong[:3])} (set by {f0.name}) into its native form: '
                    f'{ {n1: sorted(best[2].get(n1, ())) for n1 in wrong[:3]} } instead of { {n1: sorted(expect[n1]) for n1 in wrong[:3]} }', None, f0.name)
        serves = SERVES.get(enum)
        if serves is not None:
            best = None
            for k in reach[1:]:
                names = {n1: {t[0] for r in rs if r['ok'] for t in r['calls']} for n1, rs in allres[k].items()}
                kinds = {n1: {w for w in serves.values() for c in cs if 'Alloc' + w in c} for n1, cs in names.items()}
                if not any(kinds.values()):
                    continue
                hit = sum(1 for n1, w in serves.items() if kinds.get(n1) == {w})
                if best is None or hit > best[0]:
                    best = (hit, k, kinds)
            if best:
                hit, k, kinds = best
                for n1, w in serves.items():
                    rep.obligations += 1
                    if kinds.get(n1) != {w}:
                        vio(rep, 'wrong-conversion', prog, k[0], f'{prog.fn[k[0]].name} serves {n1} with {sorted(kinds.get(n1, ()))} allocations', None, f'{f0.name}:{n1}')
                rep.stats.setdefault('conversions', []).append(f'{f0.name}: native allocation functions')


class AdviceChecker(BaseChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.seen = set()

    def setup(self, eng, fn, st, variant):
        eng.plain = {n for n in eng.specs if n.startswith('utils_translate') or n == 'utils_purge'}
        return [mk('arg', p[1:], fn.uname) for p in fn.params]

    def call(self, eng, st, name, args, ins, ctx):
        if name in ('madvise', 'posix_madvise') and len(args) > 2:
            self.count('advice given')
            c = known_const(st, args[2])
            self.seen.add(c)
            if c not in ADVICE[self.variant]:
                self.bad('wrong-conversion', self.root.name, ins, f'{self.root.name} ({self.variant}) gives the system advice {c} instead of {sorted(ADVICE[self.variant])}', st)
        return None


@check('C25', 'value-partitioned path exploration of every place an enumeration value reaches', PATHNOTE)
def c25(rep):
    rep.explanation = (
        'For every public function that takes an enumeration (found from the compiled headers) the analysis runs the function once per '
        'enumerator and with all values outside the enumeration, notes the structure members the raw value is kept in, and runs every '
        'entry point that reads such a member in the same way, until no new member is found. An unknown value must be refused before '
        'it takes effect; every enumerator must be settable, and the vector of native constants stored or passed for the enumerators '
        'must be that of their namesakes in the native interface.')
    rep.rules = ['unknown-accepted', 'unknown-aborts', 'known-refused', 'wrong-conversion']
    rep.assumptions = ENGINE_ASSUME
    n = 0
    for c in configs(rep, proxy=False):
        prog = front.load(c)
        rep.stats.setdefault('programs', []).append(prog.stats())
        st = rep.stats.setdefault('members_' + c, {})
        n += decide(rep, prog, module_roots(prog), st)
    prog = front.load('full')
    ro = roles.roles(prog)
    rs = []
    for f in prog.fn.values():
        for t in ro.get(f.uname, ()):
            if t[1] in ADVICE and t[0].startswith('umf_memory_provider'):
                rs.append((f, t[1]))
    for u, r in explore(prog, rs, AdviceChecker, rep):
        rep.merge_stats({'events': r.get('counts', {})})
    rep.need('places examined', n, 16)
    rep.need('conversions identified', len(set(rep.stats.get('conversions', ()))), 7)
    rep.need('advice given', rep.stats['events'].get('advice given', 0), 3)
