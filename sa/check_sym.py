"""C21: functions of optional runtime libraries are verified before they are used."""
import re
import common
import front
import roles
from checks import check, sweep, module_roots, ENGINE_ASSUME
from check_paths import PATHNOTE
from check_init import ORDINARY
from common import vio
from engine import T, assume, mk, split, root_of, known_const, nonnull
from resources import ResChecker

LOOKUP = ('utils_get_symbol_addr', 'dlsym')
# interposed functions of the C library, not of an optional runtime library
SKIP = ('src/proxy_lib', 'src/utils/', 'src/coarse')
CREATES = {'initialize'}


def lookups(prog):
    """functions that look functions up at run time"""
    out = []
    for f in prog.fn.values():
        if f.tu.startswith(SKIP):
            continue
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'call' and isinstance(i.x.get('callee'), tuple) and len(i.x['callee']) > 1 and i.x['callee'][1] in LOOKUP and f not in out:
                    out.append(f)
    return out


def reaching(prog, fs):
    """functions from which one of fs can be reached by direct calls or by handing it to a once-only initialisation"""
    up = {}
    for f in prog.fn.values():
        mod = prog.mods[f.tu]
        for b in f.blocks.values():
            for i in b.insts:
                if i.op != 'call':
                    continue
                c = i.x.get('callee')
                ns = [c[1]] if isinstance(c, tuple) and len(c) > 1 else []
                ns += [a[1] for a in i.args if isinstance(a, tuple) and len(a) == 2 and a[0] == 'g']
                for n in ns:
                    t = prog.resolve_fn(mod, n)
                    if t is not None:
                        up.setdefault(t.uname, set()).add(f.uname)
    seen = {f.uname for f in fs}
    work = list(seen)
    while work:
        for x in up.get(work.pop(), ()):
            if x not in seen:
                seen.add(x)
                work.append(x)
    return seen


def slotcalls(prog, tus):
    """functions of the modules that call through a member of a structure"""
    out = []
    for f in prog.fn.values():
        if f.tu in tus and any(i.op == 'call' and isinstance(i.x.get('callee'), str) for b in f.blocks.values() for i in b.insts):
            out.append(f)
    return out


def split_roots(prog):
    """(entry points usable before anything was created, entry points that need a created object)"""
    lk = lookups(prog)
    tus = {f.tu for f in lk}
    near = reaching(prog, lk + slotcalls(prog, tus))
    rl = roles.roles(prog)
    cold, warm = [], []
    for f in module_roots(prog, ()):
        if f.uname not in near or f.tu not in tus:
            continue
        fields = {t[1] for t in rl.get(f.uname, ())}
        if fields and not fields & CREATES:
            warm.append(f)
        elif f in lk and not fields:
            continue            # the once-only initialisation itself
        else:
            cold.append(f)
    return cold, warm


class SymChecker(ResChecker):
    want = ()

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.out = {'slots': {}, 'symbols': {}, 'kept': [], 'accepts': [], 'second': [], 'unknown': 0}
        self.todo = []
        self.phase = 0
        self.strs = {}

    def setup(self, eng, fn, st, variant):
        eng.cold = True
        eng.through = {'src/libumf.c'}
        return [mk('arg', p[1:], fn.uname) for p in fn.params]

    def bad(self, rule, key, ins, msg, st=None):
        if rule in ('null-called',):
            super().bad(rule, key, ins, msg, st)

    def text(self, eng, v):
        b, off = split(v) if isinstance(v, T) else (None, 0)
        if b is None or b.k != 'g' or not isinstance(off, int):
            return None
        s = []
        while len(s) < 400:
            c = eng.glob_init(b.a[0], off + len(s), True)
            c = c if isinstance(c, int) else None
            if not c:
                break
            s.append(chr(c & 255))
        return ''.join(s) or None

    def call(self, eng, st, name, args, ins, ctx):
        if name in ('utils_log_init', 'umfInit', 'libumfInit'):
            return [(st, 0)]
        if name in ORDINARY:
            return [(st, ORDINARY[name])]
        if name.startswith('slot:'):
            self.count('calls through looked-up functions')
        return ResChecker.call(self, eng, st, name, args, ins, ctx)

    # -------------------------------------------------------------- lookups
    def symbol_missing(self, eng, st, a, ins, ctx):
        if ('nosym',) in st.ts or self.phase:
            return False            # one missing function at a time
        s = self.text(eng, a[1])
        if s is None:
            self.out['unknown'] += 1
        st.ts[('nosym',)] = s or f'?{ins.id}'
        st.note(f'{ins.fn.file}:{ins.line} {ins.fn.name}: {s} is not present in the library')

    def symbol_found(self, eng, st, a, o, ins, ctx):
        s = self.text(eng, a[1])
        self.count('functions looked up')
        self.out['symbols'].setdefault(s or f'?{ins.id}', (ins.fn.file, ins.line, ins.fn.name))
        st.ts[('fnsym', o)] = s or f'?{ins.id}'

    def failed(self, eng, st, name, ins, ctx, r=None):
        if name in ('utils_open_library', 'dlopen') and ('nosym',) not in st.ts:
            st.ts[('nosym',)] = '<library>'

    def store(self, eng, st, addr, v, ins, ctx):
        super().store(eng, st, addr, v, ins, ctx)
        if isinstance(v, T) and ('fnsym', v) in st.ts:
            b, off = split(addr)
            tag = eng.tagof.get(addr)
            if isinstance(b, T) and b.k == 'g' and isinstance(off, int):
                x = self.prog.glob.get(b.a[0])
                ls = roles.leaves(x[1], x[0].ty) if x else ()
                tag = next((t for o, t, _ in ls if o == off and t is not None), tag) or (b.a[0], '')
            elif tag is None:
                self.out['unknown'] += 1
                tag = ins.tag
            if tag is not None:
                self.out['slots'].setdefault(tag, {}).setdefault(st.ts[('fnsym', v)], (ins.fn.file, ins.line, ins.fn.name))
            return
        tag = eng.tagof.get(addr) or ins.tag
        r = root_of(addr)
        if tag is not None and isinstance(r, T) and r.k == 'obj' and r.a[0] != 'stack':
            st.ts[('mv', tag)] = addr

    def deref(self, eng, st, addr, ins, ctx):
        if ins.op == 'call' and isinstance(ins.x.get('callee'), str) and addr == 0:
            t = '.'.join(ins.tag) if ins.tag else '?'
            self.count('calls of an absent function')
            what = st.ts.get(('nosym',))
            self.bad('null-called', f'{ins.fn.name}:{t}', ins, f'{t} is called although it is NULL'
                     + (f' ({what} is missing)' if what else ' (nothing has looked it up)'), st)
            return
        super().deref(eng, st, addr, ins, ctx)

    # ---------------------------------------------------------------- exits
    def lib(self, st):
        return [k[1] for k, v in st.ts.items() if k[0] == 'r' and v[0] == 'library']

    def root_exit(self, eng, st, fn, ret, ins):
        if fn is not self.root:
            return
        what = st.ts.get(('nosym',))
        stat = self.status(st, fn, ret)
        if stat is None and fn.enumret is None and fn.rty.k != 'void' and fn.rty.k == 'int':
            c = known_const(st, ret)
            stat = None if c is None else 'ok' if c == 0 else 'fail'
        if self.phase == 0:
            self.count('paths')
            if what is None:
                return
            if stat == 'ok':
                mv = {}
                for k, a in st.ts.items():
                    if k[0] == 'mv':
                        mv[k[1]] = known_const(st, eng.mload(st, a)) if not isinstance(eng.mload(st, a), int) else eng.mload(st, a)
                self.out['accepts'].append((what, tuple(sorted((k, v) for k, v in mv.items() if v is not None and k[0])),
                                            vio('accepted', 'x', ins, '', st.tracelist(), fn.name)))
            elif stat == 'fail':
                if self.lib(st):
                    self.out['kept'].append((what, vio('library-kept', f'library-kept|{fn.name}', ins,
                        f'{fn.name} fails because {what} is missing, and the runtime library stays loaded', st.tracelist(), fn.name)))
                self.todo.append((what, st))
            return
        if stat == 'ok' and not self.lib(st):
            self.out['second'].append((self.again, vio('accepted-after-failure', f'accepted-after-failure|{fn.name}', ins,
                f'after an attempt that failed because {self.again} is missing, a second call of {fn.name} succeeds without the library', st.tracelist(), fn.name)))

    def finish(self, eng, fn, budget):
        self.phase = 1
        seen = set()
        eng.maxsteps = eng.steps + 2_000_000
        for what, st in self.todo:
            sig = (what, frozenset(k for k in st.ts if k[0] in ('once', 'd')))
            if sig in seen or len(seen) > 40:
                continue
            seen.add(sig)
            self.again = what
            s = st.copy()
            s.ts.pop(('nosym',), None)
            args = [mk('arg', p[1:] + "'", fn.uname) for p in fn.params]
            self.count('second attempts followed')
            for s2, r, i2 in eng.run(fn, args, s, (('C', (fn.uname, 1)),)):
                self.root_exit(eng, s2, fn, r, i2)

    def gckeep(self, st):
        return [k[1] for k in st.ts if k[0] == 'fnsym'] + [v for k, v in st.ts.items() if k[0] == 'mv']

    def result(self):
        return {'counts': self.counts, 'out': self.out, 'root': self.root.name}


class GuardedChecker(ResChecker):
    """calls through functions that may be absent after a successful creation"""
    want = ()

    def __init__(self, prog, root, variant, optional, slots, blind):
        super().__init__(prog, root, variant)
        self.optional = optional
        self.slots = slots
        self.blind = blind      # some lookup could not be traced to its member
        self.structs = {s[0] for s in slots}

    def load(self, eng, st, addr, val, ins, ctx):
        super().load(eng, st, addr, val, ins, ctx)
        tag = eng.tagof.get(addr) or ins.tag
        if tag is None or not isinstance(val, T):
            return
        if tag in self.slots:
            st.ts[('sl', val)] = tag
        else:
            st.ts[('mb', val)] = tag

    def gckeep(self, st):
        return list(super().gckeep(st)) + [k[1] for k in st.ts if k[0] in ('sl', 'mb')]

    def call(self, eng, st, name, args, ins, ctx):
        if name.startswith('slot:'):
            fv = eng.cur_callee
            tag = st.ts.get(('sl', fv)) or ins.tag
            if tag in self.slots:
                self.count('calls through looked-up functions')
                self.judge(eng, st, tag, fv, ins)
            elif tag is not None and tag[0] in self.structs and not self.blind:
                self.bad('never-looked-up', '.'.join(tag), ins, f'{".".join(tag)} is called, but no lookup ever fills it in', st)
        return ResChecker.call(self, eng, st, name, args, ins, ctx)

    def bad(self, rule, key, ins, msg, st=None):
        if rule in ('unverified-call', 'never-looked-up'):
            super().bad(rule, key, ins, msg, st)

    def judge(self, eng, st, tag, fv, ins):
        if tag not in self.optional:
            return
        self.count('calls of possibly absent functions')
        if isinstance(fv, T) and nonnull(st, fv) or any(k[0] == 'sl' and v == tag and nonnull(st, k[1]) for k, v in st.ts.items()):
            self.count('guarded by a check of the function')
            return
        # a member that every creation without the function sets to one value, known to hold another one here
        for mv in self.optional[tag]:
            mv = dict(mv)
            for k, v in st.ts.items():
                if k[0] == 'mb' and v in mv and not assume(st.copy(), 'eq', k[1], mv[v], 64):
                    break
            else:
                break
        else:
            self.count('guarded by a member set at creation')
            return
        self.bad('unverified-call', f'{ins.fn.name}:{".".join(tag)}', ins,
                 f'{".".join(tag)} is called, but creation succeeds when {self.slots[tag]} is missing and nothing on this path shows that it is present', st)


def plain(sym, field):
    """does the looked-up name denote the function the member is named after"""
    return sym == field or re.fullmatch(re.escape(field) + r'_v\d+(_\w+)?', sym) or re.search(rf'(?<!\d){len(field)}{re.escape(field)}(?!\w*{re.escape(field)})', sym) \
        or f'?{field}@' in sym


@check('C21', 'typestate of looked-up functions: lookup, verification, call', PATHNOTE)
def c21(rep):
    rep.explanation = (
        'Every entry point that can run before an object was created and that leads to run-time lookups is followed from the initial state of the '
        'process, with all functions present, with the library missing and with each single function missing. A function whose absence does not '
        'make creation fail is optional: every call through its member, in every operation of the module, must then be on a path where the member '
        'is known to be present, or where a member of the created object differs from the value every creation without the function gives it. '
        'When creation fails for a missing function the library must have been released, and a second attempt must not succeed. No call through '
        'a NULL member is reachable. Each member is filled by the lookup of the function it is named after, and no function fills two.')
    rep.rules = ['null-called', 'unverified-call', 'never-looked-up', 'library-kept', 'accepted-without-library', 'accepted-after-failure', 'wrong-symbol']
    rep.assumptions = ENGINE_ASSUME + ['one function is missing at a time', 'operations of a provider or pool run only after its creation succeeded']
    for cfgs in (['full', 'all', 'release', 'nohwloc'],):
        res = sweep(rep, SymChecker, cfgs, rootsel=lambda p: split_roots(p)[0], unroll=1, maxstates=150)
    slots, symbols, accepts = {}, {}, {}
    kept, second = [], []
    blind = 0
    for c, u, r in res:
        o = r['out']
        blind += o['unknown']
        for t, ss in o['slots'].items():
            for s, w in ss.items():
                slots.setdefault(t, {}).setdefault(s, w)
        symbols.update(o['symbols'])
        for what, mv, v in o['accepts']:
            accepts.setdefault(what, []).append((mv, v))
        kept += o['kept']
        second += o['second']
    rep.stats['functions_looked_up'] = {s: list(w) for s, w in sorted(symbols.items())}
    rep.stats['lookups_not_traced'] = blind
    rep.stats['optional_functions'] = sorted(accepts)
    rep.obligations += len(symbols) * 3
    bysym = {}
    for t, ss in slots.items():
        for s in ss:
            bysym.setdefault(s, set()).add(t)
    for mv, v in accepts.get('<library>', ()):
        v.rule = 'accepted-without-library'
        v.key = f'accepted-without-library|{v.entry}'
        v.msg = f'{v.entry} succeeds although the runtime library could not be loaded'
        rep.add(v)
    for what, v in kept:
        if what not in accepts:
            rep.add(v)
    for what, v in second:
        rep.add(v)
    # names
    for t, ss in sorted(slots.items()):
        for s, w in ss.items():
            rep.obligations += 1
            if s.startswith('?'):
                continue
            others = [x for x in slots if x != t and x[0] == t[0]]
            dup = [x for x in bysym[s] if x != t and x[0] == t[0]]
            if dup and not plain(s, t[1]):
                m = f'{t[0]}.{t[1]} is filled by the lookup of {s}, which also fills {dup[0][1]}'
            elif not plain(s, t[1]) and any(plain(s, x[1]) for x in others):
                m = f'{t[0]}.{t[1]} is filled by the lookup of {s}, the name of another member'
            else:
                continue
            rep.add(common.Violation('wrong-symbol', f'wrong-symbol|{t[0]}.{t[1]}', w[0], w[1], w[2], m, (), w[2]))
    optional = {}
    for s, l in accepts.items():
        for t in bysym.get(s, ()):
            optional.setdefault(t, set()).update(mv for mv, _ in l)
    names = {t: '/'.join(sorted(ss)) for t, ss in slots.items()}
    res = sweep(rep, lambda p, r, v=None: GuardedChecker(p, r, v, optional, names, blind), ['full', 'all', 'release'], rootsel=lambda p: sum(split_roots(p), []))
    rep.need('functions looked up', len(symbols), 8)
    rep.need('members filled by lookups', len(slots), 8)
    rep.need('calls through them', sum(r['counts'].get('calls through looked-up functions', 0) for _, _, r in res), 10)
