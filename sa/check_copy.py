"""C26: nothing the caller keeps is referred to after the call."""
import front
import common
import headers
import roles
from checks import check, sweep, configs, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import Violation
from resources import ResChecker
from engine import T, mk, split, root_of, known_const, nonnull
import re

# operations whose argument is data of the caller
SLOTARG = {
    ('umf_memory_provider_ops_t', 'initialize'): (0,), ('umf_memory_pool_ops_t', 'initialize'): (1,), ('umf_memtarget_ops_t', 'initialize'): (0,),
    ('umf_memtarget_ops_t', 'memory_provider_create_from_memspace'): (1,), ('umf_memtarget_ops_t', 'pool_create_from_memspace'): (1,),
    ('umf_memory_provider_ipc_ops_t', 'open_ipc_handle'): (1,), ('umf_memory_provider_ipc_ops_t', 'get_ipc_handle'): (3,),
}
# values that are what the call is about, not a description of it
SUBJECT = {
    ('umf_fixed_memory_provider_params_t', 'ptr'): 'the memory the provider is to manage',
    ('umfFixedMemoryProviderParamsCreate', 'ptr'): 'the memory the provider is to manage',
    ('umfFixedMemoryProviderParamsSetMemory', 'ptr'): 'the memory the provider is to manage',
    ('umfPoolSetTag', 'tag'): 'an opaque value handed back as given',
}


def dataargs(prog, f):
    """indices of the parameters that point to data of the caller"""
    out = {}
    if f.name in common.public_names(prog):
        for d in headers.decls():
            k, n, t, fl, j = d
            if k != 'FunctionDecl' or n != f.name:
                continue
            ps = [x for x in j.get('inner', ()) if x['kind'] == 'ParmVarDecl']
            for i, p in enumerate(ps):
                ty = (p.get('type') or {}).get('qualType', '')
                nm = p.get('name') or ''
                if '*' not in ty or ty.endswith('_handle_t'):
                    continue
                if re.match(r'(const )?void \*$', ty) and nm not in ('params', 'providerIpcData'):
                    continue        # memory, tags and control arguments: opaque values
                if (f.name, nm) in SUBJECT:
                    continue
                out[i] = nm
    for t in roles.roles(prog).get(f.uname, ()):
        for i in SLOTARG.get(t, ()):
            out.setdefault(i, 'params' if t[1] == 'initialize' else f.params[i])
    return out


def ptr_fields(prog):
    """(struct, member) -> kind; struct -> {offset: member} of data pointers"""
    d = {}
    for m in prog.mods.values():
        d.update(m.fieldptr)
    return d




class CopyChecker(ResChecker):
    want = ()

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.data = dataargs(prog, root)
        self.tags = {}
        self.ptr = ptr_fields(prog)

    def setup(self, eng, fn, st, variant):
        args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        self.dargs = {args[i]: n for i, n in self.data.items() if i < len(args)}
        return args

    def load(self, eng, st, addr, val, ins, ctx):
        if val.__class__ is T and val.k == 'ld' and ins.tag is not None:
            self.tags.setdefault(val, ins.tag)
        h = getattr(ResChecker, 'load', None)
        if h is not None:
            h(self, eng, st, addr, val, ins, ctx)

    def store(self, eng, st, addr, v, ins, ctx):
        self.count('stores')
        if addr.__class__ is T:
            b, o = split(addr)
            w = self.origin(eng, v)
            if w is not None and self.survives(st, b):
                st.ts[('kept', b, o)] = (w, ins)
            elif ('kept', b, o) in st.ts:
                del st.ts[('kept', b, o)]
            if ins.tag is not None:
                self.tags[(b, o)] = ins.tag
        h = getattr(ResChecker, 'store', None)
        if h is not None:
            h(self, eng, st, addr, v, ins, ctx)

    def origin(self, eng, v):
        """which datum of the caller v refers to, or None"""
        if v.__class__ is not T:
            return None
        b, off = split(v)
        if b in self.dargs:
            return f'parameter {self.dargs[b]}'
        if b.__class__ is T and b.k == 'ld':
            r = b
            while r.__class__ is T and r.k == 'ld':
                r = root_of(r.a[0])
            if r in self.dargs:
                # a pointer loaded from what the caller passed
                t = self.tags.get(b)
                if t is None:
                    a = b.a[0]
                    from engine import add
                    t = eng.tagof.get(add(a, b.a[1])) if isinstance(b.a[1], int) else None
                if t is None or t in SUBJECT:
                    return None
                k = self.ptr.get(t)
                if k in ('data', 'void'):
                    return '.'.join(t)
        return None

    def survives(self, st, base):
        r = root_of(base)
        if r.__class__ is not T:
            return False
        if r in self.dargs:
            return False
        if r.k == 'obj':
            return r.a[0] not in ('stack', 'outcell') and ('d', r) not in st.ts
        if r.k == 'arg':
            return True
        return r.k == 'g' and not r.a[0].startswith('<')

    def root_exit(self, eng, st, fn, ret, ins):
        if self.status(st, fn, ret) == 'fail':
            return
        self.count('successful exits')
        for k, (w, at) in [(k, v) for k, v in st.ts.items() if k[0] == 'kept']:
            self.count('references examined')
            if self.survives(st, k[1]):
                self.bad('kept', f'{fn.name}:{w}', at, f'{fn.name} keeps a reference to {w}, which the caller may change or destroy after the call', st)
        for key, v in st.mem.items():
            base, off = key
            if off == '@r':
                if not self.survives(st, base):
                    continue
                for kind, lo, size, x in v:
                    if kind == 'c' and x[0].__class__ is T and x[0] in self.dargs and isinstance(x[1], int):
                        self.count('structures copied')
                        for (s, f), o in self.layout(size).items():
                            if self.ptr.get((s, f)) == 'data' and (s, f) not in SUBJECT and st.mem.get((base, lo + o)) is None:
                                self.bad('kept', f'{fn.name}:{s}.{f}', ins, f'{fn.name} copies the pointer {s}.{f} given by the caller into an object that outlives the call', st)
                continue
            # copied together with the object that held it
            w = self.origin(eng, v)
            if w is not None and ('kept', base, off) not in st.ts and self.survives(st, base):
                self.bad('kept', f'{fn.name}:{w}', ins, f'{fn.name} keeps a reference to {w}, which the caller may change or destroy after the call', st)

    def layout(self, size):
        """data pointers of the parameter structures of this size"""
        if not hasattr(self, '_lay'):
            self._lay = {}
            for m in self.prog.mods.values():
                for name, ty in m.types.items():
                    if not name.startswith('struct.') or 'params' not in name:
                        continue
                    try:
                        nt = front.Type('named', name)
                        n = m.size(nt)
                        lv = roles.leaves(m, nt)
                    except (KeyError, ValueError, TypeError, front.AnalysisError):
                        continue
                    for o, t, *_ in lv:
                        if t is not None:
                            self._lay.setdefault(n, {})[t] = o
        return self._lay.get(size, {})


def copy_roots(prog):
    out = []
    for f in prog.fn.values():
        if f.blocks and dataargs(prog, f):
            out.append(f)
    return out


@check('C26', 'escape analysis of pointers to caller-owned data', PATHNOTE)
def c26(rep):
    rep.explanation = (
        'For every public function and every operation that is given parameters, names, arrays or tables, the caller-owned pointers '
        '(the arguments themselves and the data pointers found in what they point to, classified by the declared C types) are followed '
        'along every path. At every successful exit no cell of a heap object, a handle or a global may hold such a pointer, and no '
        'structure that contains one may have been copied bit by bit.')
    rep.rules = ['kept']
    rep.assumptions = ENGINE_ASSUME + ['handles of native objects and of library objects are opaque values']
    rep.exemptions = [f'{a}.{b}: {c}' for (a, b), c in SUBJECT.items()] if hasattr(rep, 'exemptions') else []
    res = sweep(rep, CopyChecker, configs(rep, proxy=False), rootsel=copy_roots)
    ev = rep.stats['events']
    rep.need('functions given data', len({u for c, u, r in res}), 50)
    rep.need('successful exits', ev.get('successful exits', 0), 150)
    rep.obligations = ev.get('successful exits', 0)
