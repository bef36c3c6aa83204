"""Which functions implement which member of which operation table (from constant tables and stores in the IR)."""
import re
from engine import Engine, mk, T


def sname(ty):
    if ty.k != 'named':
        return None
    b = re.sub(r'\.\d+$', '', ty.a)
    return b.split('.', 1)[1] if '.' in b else b


def leaves(mod, ty, off=0, path=None):
    """(offset, (struct, field)) for every scalar member reachable in the type (innermost named struct)"""
    out = []
    sn = sname(ty)
    t = mod.resolve(ty)
    if t.k == 'struct':
        offs = mod.offsets(t)[0]
        for i, (o, m) in enumerate(zip(offs, t.a)):
            tag = (sn, mod.fieldname(ty.a, i)) if sn is not None else path
            r = mod.resolve(m)
            if r.k in ('struct', 'array'):
                out += leaves(mod, m, off + o, tag)
            else:
                out.append((off + o, tag, m))
    elif t.k == 'array':
        es = mod.size(t.a)
        for i in range(min(t.n, 4096)):
            out += leaves(mod, t.a, off + i * es, path)
    else:
        out.append((off, path, ty))
    return out


def tables(prog):
    """[(global, module, {offset: (tag, function name or value)})] for globals that hold function pointers"""
    c = prog.__dict__.get('_tables')
    if c is not None:
        return c
    from engine import Checker
    eng = Engine(prog, Checker())
    out = []
    for mod in prog.mods.values():
        for g in mod.globals.values():
            if g.ext or g.init is None:
                continue
            m = {}
            try:
                eng.flatten(mod, g.ty, g.init, 0, m)
            except Exception:
                continue
            fs = {o: v for o, v in m.items() if isinstance(v, T) and v.k == 'f'}
            if not fs:
                continue
            tags = {o: t for o, t, _ in leaves(mod, g.ty)}
            d = {}
            for o, t in tags.items():
                v = m.get(o)
                if v is None:
                    v = 0 if any(lo <= o < hi for lo, hi in m.get('zero', ())) else None
                d[o] = (t, v)
            out.append((g, mod, d))
    prog._tables = out
    return out


def roles(prog):
    """function uname -> set of (struct, field) it is installed as"""
    c = prog.__dict__.get('_roles')
    if c is not None:
        return c
    r = {}
    for g, mod, d in tables(prog):
        for o, (t, v) in d.items():
            if isinstance(v, T) and v.k == 'f' and t is not None and v.a[0] in prog.fn:
                r.setdefault(v.a[0], set()).add(t)
    # members filled in by code
    for f in prog.fn.values():
        mod = prog.mods[f.tu]
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'store' and isinstance(i.args[0], tuple) and i.args[0][0] == 'g' and i.tag is not None:
                    t = prog.resolve_fn(mod, i.args[0][1])
                    if t is not None:
                        r.setdefault(t.uname, set()).add(i.tag)
    # callbacks handed to a function that keeps them in a member
    keeps = {}
    for f in prog.fn.values():
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'store' and i.args[0] in f.params and i.tag is not None:
                    keeps.setdefault((f.uname, f.params.index(i.args[0])), set()).add(i.tag)
    for f in prog.fn.values():
        mod = prog.mods[f.tu]
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'call' and isinstance(i.x['callee'], tuple) and i.x['callee'][0] == 'g':
                    t = prog.resolve_fn(mod, i.x['callee'][1])
                    if t is None:
                        continue
                    for n, a in enumerate(i.args):
                        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'g' and (t.uname, n) in keeps:
                            cb = prog.resolve_fn(mod, a[1])
                            if cb is not None:
                                r.setdefault(cb.uname, set()).update(keeps[t.uname, n])
    prog._roles = r
    return r
