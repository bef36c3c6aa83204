"""C27: text and data stay inside the buffer meant for them, and text is terminated."""
import re
import front
import headers
import common
import roles
import specs
from checks import check, sweep, configs, ENGINE_ASSUME, module_roots
from check_paths import PATHNOTE
from common import BaseChecker, vio
from engine import T, mk, split, root_of, known_const, Inter, lin_parts, add, wrap, assume

# library functions that write text or data: (destination, length, writes at most length bytes and terminates)
WRITERS = {'strncpy': (0, 2, False), 'snprintf': (0, 1, True), 'vsnprintf': (0, 1, True), 'memcpy': (0, 2, None), 'memmove': (0, 2, None),
           'memset': (0, 2, None), 'hwloc_bitmap_list_snprintf': (0, 1, True), 'hwloc_bitmap_snprintf': (0, 1, True), 'fgets': (0, 1, True),
           'strftime': (0, 1, True), 'readlink': (1, 2, False), 'read': (1, 2, None), 'pread': (1, 2, None), 'getcwd': (0, 1, True),
           'strerror_r': (1, 2, True), 'gethostname': (0, 1, False), 'recv': (1, 2, None),
           # of the library itself
           'utils_copy_path': (1, 2, True), 'utils_strerror': (1, 2, True), 'ctl_arg_string': (1, 2, True)}
# functions whose caller states the size of the buffer: (buffer, size: parameter index or member of the operations' contract)
CONTRACT = {'utils_copy_path': (1, 2), 'utils_strerror': (1, 2), 'ctl_arg_string': (1, 2), 'ctl_arg_integer': (1, 2),
            'ravl_node_copy_constructor': (0, 1)}
# writes whose bound is an agreement between two runs of different functions
AGREED = {
    ('slot', 'umf_memory_provider_ipc_ops_t', 'get_ipc_handle'): 'the caller provides what get_ipc_handle_size of the same provider reported',
    'ravl_node_insert_constructor': 'the tree was created for elements of pointer size',
    'ravl_remove': 'all nodes of a tree hold data_size bytes',
    'ravl_node_copy_constructor': 'all nodes of a tree hold data_size bytes',
}
NAMELEN = 256       # no function of the library has a longer name
CAP = 1 << 40


def types_of_allocas(prog):
    out = {}
    for f in prog.fn.values():
        mod = prog.mods[f.tu]
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'alloca':
                    out[i.id] = (mod, i)
    return out


class Ideal:
    """integer meaning of a term: sums of atoms, widths ignored (wrap-around is C12's subject)"""

    def __init__(self, d, c):
        self.d, self.c = d, c

    def sub(self, o):
        d = dict(self.d)
        for t, k in o.d.items():
            d[t] = d.get(t, 0) - k
        return Ideal({t: k for t, k in d.items() if k}, self.c - o.c)


def ideal(v, depth=0):
    if isinstance(v, int):
        return Ideal({}, v)
    while v.k == 'cast' and v.a[0] in ('zext', 'sext', 'trunc') and v.a[2] >= 32 and v.a[1] >= 32:
        v = v.a[3]
        if isinstance(v, int):
            return Ideal({}, v)
    if v.k == 'lin' and depth < 6:
        d, c = {}, wrap(v.a[1], 64)
        for t, k in v.a[0]:
            x = ideal(t, depth + 1)
            c += k * x.c
            for u, n in x.d.items():
                d[u] = d.get(u, 0) + k * n
        return Ideal({t: k for t, k in d.items() if k}, c)
    return Ideal({v: 1}, 0)


class BufChecker(BaseChecker):
    alloca = None

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        if BufChecker.alloca is None or BufChecker.alloca[0] is not prog:
            BufChecker.alloca = (prog, types_of_allocas(prog))
        self.al = BufChecker.alloca[1]
        self.sites = {}
        self.agreed = set()
        self.owed, self.zeros, self._structs = [], {}, None

    # ------------------------------------------------------------ sizes
    def extent(self, st, dst, atag):
        """bytes available at dst: an Ideal, with what it is called, or None"""
        b, off = split(dst)
        r = root_of(b)
        if r.__class__ is not T:
            return None
        pos = ideal(dst).sub(Ideal({r: 1}, 0))
        size = None
        what = None
        if r.k == 'obj' and r.a[0] == 'stack':
            x = self.al.get(r.a[1])
            if x is not None:
                mod, i = x
                n = self.alloca_size(mod, i)
                if n is not None:
                    size, what = Ideal({}, n), 'a local buffer of %d bytes' % n
        elif r.k == 'obj':
            s = st.ts.get(('size', r))
            if s is not None:
                size, what = ideal(s), 'an allocation'
                c = known_const(st, s)
                if c is not None:
                    size = Ideal({}, c)
        elif r.k == 'g':
            gm = self.prog.glob.get(r.a[0])
            if gm is not None and not gm[0].ext:
                size, what = Ideal({}, gm[1].size(gm[0].ty)), 'the object ' + gm[0].name
        elif r.k in ('arg',):
            s = st.ts.get(('size', r))
            if s is not None:
                size, what = ideal(s), "the caller's buffer"
        m = self.member(atag)
        if m is not None:
            fo, fs = m
            if fs:
                inside = pos.c - fo if not pos.d and fo <= pos.c < fo + fs else None
                if inside is None and pos.d and fo <= pos.c < fo + fs:
                    inside = pos.c - fo
                left = Ideal({t: -k for t, k in pos.d.items()}, fs - (inside or 0))
                return left, '.'.join(atag)
        if size is None:
            return None
        return size.sub(pos), what

    def alloca_size(self, mod, i):
        try:
            n = mod.size(i.x['ty']) if isinstance(i.x, dict) and 'ty' in i.x else mod.size(i.x if not isinstance(i.x, (tuple, list)) else i.x[0])
        except Exception:
            return None
        return n

    def member(self, tag):
        """(offset, size) of an array member"""
        if not tag or tag[0] == 'global':
            return None
        k = tuple(tag)
        if k in _members:
            return _members[k]
        r = None
        for m in self.prog.mods.values():
            nm = 'struct.' + tag[0]
            ty = m.types.get(nm)
            if ty is None:
                continue
            t = m.resolve(front.Type('named', nm))
            if t.k != 'struct':
                continue
            offs = m.offsets(t)[0]
            for n, (o, f) in enumerate(zip(offs, t.a)):
                if m.fieldname(nm, n) == tag[1]:
                    ft = m.resolve(f)
                    if ft.k == 'array':
                        r = (o, m.size(ft))
                    break
            break
        _members[k] = r
        return r

    # ------------------------------------------------------------ proofs
    def upper(self, st, t):
        f = st.facts.get(t)
        best = None
        if f.__class__ is Inter:
            best = f.sh if f.sh is not None else None
            if f.uh is not None and (best is None or f.uh < best) and f.uh < 1 << 62:
                best = f.uh
        if t.k == 'op' and t.a[0] == 'strlen':
            u = self.strmax(t.a[2])
            if u is not None and (best is None or u < best):
                best = u
        if t.k == 'cast':
            w = t.a[1]
            if w < 32 and t.a[0] == 'zext':
                best = min(best, (1 << w) - 1) if best is not None else (1 << w) - 1
        return best

    def lower(self, st, t):
        f = st.facts.get(t)
        best = None
        if f.__class__ is Inter:
            best = f.sl
            if f.ul and (best is None or f.ul > best) and (f.uh is None or f.uh < 1 << 62):
                best = f.ul
        if t.k == 'op' and t.a[0] == 'strlen':
            best = max(best or 0, 0)
        return best

    def nonneg(self, st, d):
        """is the Ideal d >= 0 on this path"""
        if not d.d:
            return d.c >= 0
        # bounds of the atoms
        lo = d.c
        for t, k in d.d.items():
            x = self.lower(st, t) if k > 0 else self.upper(st, t)
            if x is None and k > 0 and self.unsigned(t):
                x = 0
            if x is None:
                lo = None
                break
            lo += k * x
        if lo is not None and lo >= 0:
            return True
        # a compared sum: d == n*F + c for a fact about F
        for f, iv in st.facts.items():
            if f.__class__ is tuple:
                if f[0] == 'c' and f[1] in ('ult', 'slt', 'ule', 'sle') and len(f) >= 4:
                    a, b = f[2], f[3]
                    if not (isinstance(a, (int, T)) and isinstance(b, (int, T))):
                        continue
                    strict = f[1].endswith('lt')
                    if iv:
                        x = ideal(b).sub(ideal(a))     # >= 0 (or > 0)
                        m = 1 if strict else 0
                    else:
                        x = ideal(a).sub(ideal(b))
                        m = 0 if strict else 1
                    y = d.sub(x)
                    if self.nonneg1(st, Ideal(y.d, y.c + m)):
                        return True
                continue
            if iv.__class__ is not Inter or f.__class__ is not T:
                continue
            x = ideal(f)
            if not x.d or not set(x.d) & set(d.d):
                continue
            if iv.sl is not None or iv.ul:
                m = max([z for z in (iv.sl, iv.ul if iv.ul and iv.ul < 1 << 62 else None) if z is not None], default=None)
                if m is not None:
                    y = d.sub(Ideal(x.d, x.c - m))
                    if self.nonneg1(st, y):
                        return True
            if iv.sh is not None or (iv.uh is not None and iv.uh < 1 << 62):
                m = min(z for z in (iv.sh, iv.uh if iv.uh is not None and iv.uh < 1 << 62 else None) if z is not None)
                n = Ideal({t: -k for t, k in x.d.items()}, m - x.c)
                y = d.sub(n)
                if self.nonneg1(st, y):
                    return True
        return False

    def nonneg1(self, st, d):
        lo = d.c
        for t, k in d.d.items():
            x = self.lower(st, t) if k > 0 else self.upper(st, t)
            if x is None and k > 0 and self.unsigned(t):
                x = 0
            if x is None:
                return False
            lo += k * x
        return lo >= 0

    def unsigned(self, t):
        return t.k == 'arg' or (t.k == 'op' and t.a[0] == 'strlen')

    def strmax(self, p):
        """longest string p may point to, when it can only point to constants"""
        if isinstance(p, int):
            return None
        b, off = split(p)
        if b.k == 'g':
            s = self.const_string(b.a[0])
            return len(s) - off if s is not None and isinstance(off, int) and 0 <= off <= len(s) else None
        if b.k == 'ld':
            g = root_of(b.a[0])
            if g.__class__ is T and g.k == 'g':
                return self.table_max(g.a[0])
        return None

    def const_string(self, u):
        gm = self.prog.glob.get(u)
        if gm is None or not gm[0].const:
            return None
        g, mod = gm
        init = g.init
        k = ('str', u)
        if k in _members:
            return _members[k]
        out = {}
        try:
            self.eng.flatten(mod, g.ty, init, 0, out)
            s = []
            n = 0
            while n in out or n < mod.size(g.ty):
                c = out.get(n, 0)
                if not isinstance(c, int) or c == 0:
                    break
                s.append(chr(c & 255))
                n += 1
            r = ''.join(s)
        except Exception:
            r = None
        _members[k] = r
        return r

    def table_max(self, u):
        k = ('tab', u)
        if k in _members:
            return _members[k]
        r = None
        gm = self.prog.glob.get(u)
        if gm is not None and not gm[0].ext:
            out = {}
            try:
                self.eng.flatten(gm[1], gm[0].ty, gm[0].init, 0, out)
                ls = []
                for v in out.values():
                    if isinstance(v, T) and v.k == 'g':
                        s = self.const_string(v.a[0])
                        ls.append(None if s is None else len(s))
                    elif v != 0:
                        ls.append(None)
                if ls and None not in ls:
                    r = max(ls)
            except Exception:
                r = None
        _members[k] = r
        return r

    # ------------------------------------------------------------ events
    def setup(self, eng, fn, st, variant):
        args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        c = CONTRACT.get(fn.name)
        if c is not None and c[1] < len(args):
            st.ts[('size', args[c[0]])] = args[c[1]]
        self.pair = variant
        if variant is not None:
            eng.through = {variant.tu}
            self.cell = mk('obj', 'sizecell', 0, ())
            args[1] = self.cell
            self.agree = False
            return args
        self.agree = fn.name in AGREED or any(('slot',) + t in AGREED for t in roles.roles(self.prog).get(fn.uname, ()))
        eng.plain = {n for n in eng.specs if n in ('utils_copy_path',)}
        return args

    def call(self, eng, st, name, args, ins, ctx):
        if name.startswith('umf_ba_') and args and ('alloc' in name):
            n = {'umf_ba_global_alloc': 0, 'umf_ba_global_aligned_alloc': 0, 'umf_ba_linear_alloc': 1}.get(name)
            if n is not None and n < len(args):
                st.ts[('nextsize', ins.id)] = args[n]
            return None
        if name in ('strlen', 'strnlen') and isinstance(args[0], T):
            s = self.strmax(args[0])
            b, off = split(args[0])
            if s is not None and b.k == 'g':
                return [(st, s)]
            if name == 'strlen':
                if not eng.check_deref(st, args[0], ins, ctx):
                    return []
                t = mk('op', 'strlen', 64, args[0], 0)
                if st.facts.get(t).__class__ is not Inter:
                    st.facts[t] = Inter(0, 1 << 46, 0, 1 << 46)
                return [(st, t)]
        if name == 'strnlen' and isinstance(args[0], T):
            if not eng.check_deref(st, args[0], ins, ctx):
                return []
            t = mk('op', 'strlen', 64, args[0], 0)
            if st.facts.get(t).__class__ is not Inter:
                st.facts[t] = Inter(0, 1 << 46, 0, 1 << 46)
            out = []
            s2 = st.copy()
            if assume(st, 'ult', t, args[1], 64):
                out.append((st, t))
            if assume(s2, 'uge', t, args[1], 64):
                out.append((s2, args[1]))
            return out
        w = WRITERS.get(name)
        if w is None:
            if name in ('strcpy', 'strcat', 'sprintf', 'vsprintf', 'gets', 'stpcpy'):
                return self.unbounded(eng, st, name, args, ins, ctx)
            if name == 'strncat':
                self.strncat(eng, st, args, ins, ctx)
            return None
        di, li, term = w
        if max(di, li) >= len(args):
            return None
        dst, n = args[di], args[li]
        if not isinstance(dst, T):
            return None
        c = known_const(st, n)
        if c is not None:
            n = c
        if n == 0:
            return None
        atag = (ins.x.get('atags') or [None] * len(args))[di] if isinstance(ins.x, dict) else None
        e = self.extent(st, dst, atag)
        self.check(eng, st, name, dst, n, e, ins, ctx)
        if term is False:
            self.unterminated(eng, st, name, dst, n, args, e, ins, ctx)
        if name == 'memcpy' and isinstance(args[1], T):
            m = ideal(n)
            x = mk('op', 'strlen', 64, args[1], 0)
            if m.c == 0 and m.d == {x: 1}:
                self.unterminated(eng, st, name, dst, n, args, e, ins, ctx)
        if name in ('snprintf', 'vsnprintf'):
            r = mk('sym', name, ins.id, ctx)
            hi = self.format_max(eng, st, name, args)
            st.facts[r] = Inter(1, hi, 1, hi)
            eng.havoc(st, split(dst)[0], mk('sym', 'hv', ins.id, ctx))
            return [(st, r)]
        if name == 'strftime':
            r = mk('sym', name, ins.id, ctx)
            hi = n - 1 if isinstance(n, int) else None
            st.facts[r] = Inter(0, hi, 0, hi)
            eng.havoc(st, split(dst)[0], mk('sym', 'hv', ins.id, ctx))
            return [(st, r)]
        return None

    def format_max(self, eng, st, name, args):
        """longest text a constant format without unbounded conversions produces"""
        if name != 'snprintf':
            return 1 << 30
        f = args[2]
        if not isinstance(f, T) or split(f)[0].k != 'g':
            return 1 << 30
        s = self.const_string(split(f)[0].a[0])
        if s is None:
            return 1 << 30
        n = 0
        ai = 3
        for m in re.finditer(r'%[-+ #0]*(\d*)(?:\.\d+)?(hh|h|ll|l|z|j|t)?([diuxXcsp%])|[^%]', s):
            if m.group(3) is None:
                n += 1
            elif m.group(3) == '%':
                n += 1
            elif m.group(3) == 's':
                a = args[ai] if ai < len(args) else None
                u = self.strmax(a) if isinstance(a, T) else None
                if u is None and isinstance(a, T) and s == '%s: ' and self.root.name in ('utils_log', 'utils_plog'):
                    u = NAMELEN       # __func__
                if u is None:
                    return 1 << 30
                n += u
                ai += 1
            else:
                n += max(int(m.group(1) or 0), 22)
                ai += 1
        return n

    def unbounded(self, eng, st, name, args, ins, ctx):
        dst = args[0]
        if not isinstance(dst, T):
            return None
        n = None
        if name == 'sprintf':
            hi = self.format_max(eng, st, 'snprintf', [0] + args)
            n = hi + 1 if hi < 1 << 30 else None
        elif name in ('strcpy', 'stpcpy') and isinstance(args[1], T):
            u = self.strmax(args[1])
            n = u + 1 if u is not None else add(mk('op', 'strlen', 64, args[1], 0), 1)
        atag = (ins.x.get('atags') or [None])[0]
        e = self.extent(st, dst, atag)
        self.check(eng, st, name, dst, n, e, ins, ctx)
        return None

    def strncat(self, eng, st, args, ins, ctx):
        dst, n = args[0], args[2]
        u = self.strmax(args[1]) if isinstance(args[1], T) else None
        c = known_const(st, n)
        if u is not None and (c is None or u < c):
            n = u
        elif c is not None:
            n = c
        atag = (ins.x.get('atags') or [None])[0]
        self.check(eng, st, 'strncat', dst, add(n, 1), self.extent(st, dst, atag), ins, ctx)

    def check(self, eng, st, name, dst, n, e, ins, ctx):
        key = (ins.fn.uname, ins.line, name)
        self.sites.setdefault(key, [0, 0])
        self.count('bounded writes examined')
        if e is None:
            if isinstance(n, int) and name in ('memcpy', 'memset', 'memmove'):
                self.count('whole objects through pointers')
                return
            if self.agree:
                self.agreed.add(key)
                self.count('writes under an agreement')
                return
            if n is not None and name in ('memcpy', 'memset', 'memmove'):
                # unknown destination: nothing to compare with
                self.count('destination of unknown size')
                self.sites[key][1] += 1
                return
            self.bad('unknown-buffer', f'{ins.fn.name}:{name}', ins, f'{ins.fn.name} writes with {name} into a buffer whose size the code does not know', st)
            return
        self.sites[key][0] += 1
        if n is None:
            self.bad('overrun', f'{ins.fn.name}:{name}', ins, f'{ins.fn.name} writes text of unlimited length into {e[1]} with {name}', st)
            return
        if self.agree and e[0].d:
            self.agreed.add(key)
            return
        if not self.nonneg(st, e[0].sub(ideal(n))):
            self.bad('overrun', f'{ins.fn.name}:{name}', ins, f'{ins.fn.name}: the length given to {name} is not limited by the size of {e[1]}', st)
        self.count('proved' if True else '')

    # ------------------------------------------------------------ termination
    def unterminated(self, eng, st, name, dst, n, args, e, ins, ctx):
        self.count('copies that may not terminate')
        if name == 'strncpy' and isinstance(args[1], T):
            u = self.strmax(args[1])
            ln = ideal(u) if u is not None else ideal(mk('op', 'strlen', 64, args[1], 0))
            if self.nonneg(st, Ideal(ideal(n).d, ideal(n).c - 1).sub(ln)):
                self.count('terminated: the text is shorter than the limit')
                return
            if split(args[1])[0].k == 'arg' and False:
                return
        st.ts[('open', dst)] = (n, e, ins, name, args[1] if name == 'strncpy' else None)

    def store(self, eng, st, addr, v, ins, ctx):
        if addr.__class__ is not T:
            return
        opens = [k for k in st.ts if k.__class__ is tuple and k[0] == 'open']
        if opens and known_const(st, v) == 0:
            for k in opens:
                d, (n, e, i, name, src) = k[1], st.ts[k]
                rel = ideal(addr).sub(ideal(d))
                # at or before the end of what may have been written
                if root_of(split(addr)[0]) is root_of(split(d)[0]):
                    end = ideal(n)
                    if self.nonneg(st, rel) and (self.nonneg(st, end.sub(rel)) or (e is not None and self.nonneg(st, Ideal(e[0].d, e[0].c - 1).sub(rel)))):
                        del st.ts[k]
        self.byte_store(eng, st, addr, v, ins, ctx)

    def byte_store(self, eng, st, addr, v, ins, ctx):
        if self.ipcbuf is not None and root_of(split(addr)[0]) is self.ipcbuf:
            w = self.prog.mods[ins.fn.tu].size(ins.ty)
            e = self.extent(st, addr, None)
            self.count('members of exported handles')
            if e is not None and w is not None and not self.nonneg(st, Ideal(e[0].d, e[0].c - w)):
                self.bad('overrun', f'{ins.fn.name}:export', ins, f'{ins.fn.name} writes beyond the handle size that {self.root.name} reports', st)
            return
        b, off = split(addr)
        r = root_of(b)
        if r.__class__ is not T or r.k != 'obj' or ('size', r) not in st.ts and r.a[0] != 'stack':
            return
        self.count('stores into allocated objects examined')
        w = self.prog.mods[ins.fn.tu].size(ins.ty)
        e = self.extent(st, addr, None)
        if e is None:
            return
        if w > 1:
            # elements of arrays are C06's and C10's concern; here: fixed members of objects allocated with a size
            if isinstance(split(addr)[1], int) and split(addr)[0] is r and e[0].c < w and all(k > 0 for k in e[0].d.values()) \
                    and not self.nonneg(st, Ideal(e[0].d, e[0].c - w)) and self.tight(st, e[0], w):
                self.bad('overrun', f'{ins.fn.name}:store', ins, f'{ins.fn.name} stores {w} bytes beyond the end of {e[1]}', st)
            return
        if not self.nonneg(st, Ideal(e[0].d, e[0].c - w)):
            self.bad('overrun', f'{ins.fn.name}:store', ins, f'{ins.fn.name} stores {w} bytes at a position not limited by the size of {e[1]}', st)

    def tight(self, st, e, w):
        """could what remains really be less than w: known constant, or text lengths only"""
        return all(t.k == 'op' and t.a[0] == 'strlen' for t in e.d)

    def acquire(self, eng, st, kind, o, ins, ctx, extra=None):
        s = st.ts.pop(('nextsize', ins.id), None)
        if s is not None and o.__class__ is T:
            st.ts[('size', o)] = s

    def bufwrite(self, eng, st, dst, n, ins, ctx):
        pass

    def gckeep(self, st):
        out = []
        for k, v in st.ts.items():
            if k.__class__ is not tuple:
                continue
            if k[0] == 'open':
                out.append(k[1])
                if isinstance(v[0], T):
                    out.append(v[0])
                if isinstance(v[4], T):
                    out.append(mk('op', 'strlen', 64, v[4], 0))
            elif k[0] == 'size':
                out.append(k[1])
                if isinstance(v, T):
                    out.append(v)
                    out += list(ideal(v).d)
        return out

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        if self.pair is not None and fn is self.root:
            self.followed(eng, st, fn, ret)
            return
        if not (fn.enumret is not None and ret is not None and known_const(st, ret) != 0):
            self.created(eng, st)
        for k, v in st.ts.items():
            if k.__class__ is not tuple or k[0] != 'open':
                continue
            n, e, i, name, src = v
            d = k[1]
            if isinstance(src, T) and self.nonneg(st, Ideal(ideal(n).d, ideal(n).c - 1).sub(ideal(mk('op', 'strlen', 64, src, 0)))):
                self.count('terminated: the text is found to be shorter than the limit')
                continue
            r = root_of(split(d)[0])
            # the rest of the buffer is zero and at least one byte of it was not written
            if e is not None and self.nonneg(st, Ideal(e[0].d, e[0].c - 1).sub(ideal(n))) and self.zeroed(eng, st, d, n, e, i):
                self.count('terminated: the buffer was zero before')
                continue
            self.bad('unterminated', f'{i.fn.name}:{name}', i, f'{i.fn.name}: the text copied with {name} may be left without a terminating null byte', st)

    def followed(self, eng, st, fn, ret):
        """the handle is written into a buffer of exactly the size just reported"""
        if known_const(st, ret) not in (0, None):
            return
        n = eng.mload(st, self.cell)
        if isinstance(n, T) and n.k == 'ld' and n.a[0] is self.cell:
            return
        g = self.pair
        buf = mk('arg', 'ipcbuf', g.uname)
        st = st.copy()
        st.ts[('size', buf)] = n
        st.facts[buf] = Inter(None, None, 1, None, frozenset([0]))
        self.ipcbuf = buf
        self.count('size queries followed by the export')
        for s, r, ins in eng.run(g, [eng.root_args[0], mk('arg', 'ptr', g.uname), mk('arg', 'len', g.uname), buf], st, ('export',)):
            self.count('exports after a size query')

    ipcbuf = None

    def zeroed(self, eng, st, d, n, e, i):
        # the last byte of the destination holds zero: known on this path, or so made wherever such an object is created
        b, off = split(d)
        tag = (i.x.get('atags') or [None])[0]
        if not e[0].d and eng.mload(st, add(d, e[0].c - 1)) == 0:
            return True
        if self.member(tag) is None:
            return False
        self.owed.append((tuple(tag), vio('unterminated', f'unterminated|{i.fn.name}:{tag[0]}.{tag[1]}', i, f'{i.fn.name}: the text copied into {tag[0]}.{tag[1]} may be left without a terminating null byte, '
                          'as not every such object is created with a null byte at the end', st.tracelist(), self.root.name)))
        return True

    def created(self, eng, st):
        """objects of a structure's size made here: do their character arrays end with a null byte"""
        for k, v in st.ts.items():
            if k.__class__ is not tuple or k[0] != 'size' or not isinstance(v, int) or k[1].k != 'obj' or k[1].a[0] == 'stack':
                continue
            for S, arrays in struct_arrays(self.prog).get(v, ()):
                if S not in self.structs():
                    continue
                for f, o, n in arrays:
                    self.zeros.setdefault((S, f), set()).add(eng.mload(st, add(k[1], o + n - 1)) == 0)

    def structs(self):
        """structures the root function itself works on"""
        if self._structs is None:
            r = set()
            for q in headers.signatures().get(self.root.name, ()):
                q = q.replace(' ', '')
                if q.endswith('_handle_t*'):
                    r.add(q[:-len('_handle_t*')] + '_t')
            for b in self.root.blocks.values():
                for i in b.insts:
                    if i.tag:
                        r.add(i.tag[0])
                    if isinstance(i.x, dict):
                        for t in i.x.get('atags') or ():
                            if t:
                                r.add(t[0])
                    for t in (i.ty, i.x if not isinstance(i.x, dict) else i.x.get('ty')):
                        if getattr(t, 'k', None) == 'named' and t.a.startswith('struct.'):
                            r.add(t.a[7:])
            self._structs = r
        return self._structs

    def result(self):
        return {'counts': self.counts, 'sites': self.sites, 'agreed': sorted(self.agreed), 'owed': self.owed, 'zeros': self.zeros}


_members = {}


def struct_arrays(prog):
    """size -> [(struct, [(member, offset, size)])] of structures with character arrays"""
    if 'sa' not in _members or _members['sa'][0] is not prog:
        out = {}
        for m in prog.mods.values():
            for name in m.types:
                if not name.startswith('struct.'):
                    continue
                try:
                    t = m.resolve(front.Type('named', name))
                    if t.k != 'struct':
                        continue
                    offs = m.offsets(t)[0]
                    arr = []
                    for k, (o, f) in enumerate(zip(offs, t.a)):
                        ft = m.resolve(f)
                        if ft.k == 'array' and m.size(ft.a) == 1:
                            arr.append((m.fieldname(name, k), o, m.size(ft)))
                    if arr:
                        l = out.setdefault(m.size(t), [])
                        if (name[7:], arr) not in l:
                            l.append((name[7:], arr))
                except Exception:
                    continue
        _members['sa'] = (prog, out)
    return _members['sa'][1]


def buf_roots(prog):
    pairs = []
    for g, mod, d in roles.tables(prog):
        m = {t[1]: prog.fn[v.a[0]] for o, (t, v) in d.items()
             if t is not None and t[0] == 'umf_memory_provider_ipc_ops_t' and isinstance(v, T) and v.k == 'f' and v.a[0] in prog.fn}
        a, b = m.get('get_ipc_handle_size'), m.get('get_ipc_handle')
        # the tracking provider passes both requests on to one and the same provider
        if a is not None and b is not None and (a, b) not in pairs and not a.name.startswith('tracking'):
            pairs.append((a, b))
    return pairs + module_roots(prog) + [f for f in prog.fn.values() if f.tu.endswith('utils_log.c') and not f.internal]


@check('C27', 'path-sensitive bounds obligations on every text and data copy', PATHNOTE)
def c27(rep):
    rep.explanation = (
        'Every call that copies or formats text or data is an obligation: the length it is given, as a linear expression over the values '
        'on the path, must be provably no larger than what remains of the destination - the declared size of the array member, local or '
        'global object, or the size the destination was allocated with. Copies that do not terminate by themselves must be followed by a '
        'terminating store, copy provably less than their limit, or leave a zeroed tail. Character stores at computed positions of '
        'allocated buffers are treated alike.')
    rep.rules = ['overrun', 'unterminated', 'unknown-buffer']
    rep.assumptions = ENGINE_ASSUME + ['function names are shorter than %d characters' % NAMELEN] + \
        [f'{k if isinstance(k, str) else ".".join(k[1:])}: {v}' for k, v in AGREED.items()]
    res = sweep(rep, BufChecker, configs(rep), rootsel=buf_roots)
    sites = {}
    agreed = set()
    owed, zeros = [], {}
    for c, u, r in res:
        for k, v in r['sites'].items():
            o = sites.setdefault(k, [0, 0])
            o[0] += v[0]
            o[1] += v[1]
        agreed |= set(r['agreed'])
        owed += [(c, t, v) for t, v in r['owed']]
        for t, z in r['zeros'].items():
            zeros.setdefault((c, t), set()).update(z)
    for c, t, v in owed:
        if zeros.get((c, t)) != {True}:
            rep.add(v)
    rep.stats['tails_zeroed_at_creation'] = sorted({'.'.join(t) for (c, t), z in zeros.items() if z == {True}})
    known = [k for k, v in sites.items() if v[0]]
    rep.stats['sites'] = [f'{k[0]}:{k[1]} {k[2]}' for k in sorted(known)][:200]
    rep.stats['sites_of_unknown_size'] = [f'{k[0]}:{k[1]} {k[2]}' for k, v in sorted(sites.items()) if v[1] and not v[0]]
    rep.stats['sites_under_agreement'] = [f'{k[0]}:{k[1]} {k[2]}' for k in sorted(agreed)]
    rep.need('copies with a destination of known size', len(known), 40)
    rep.obligations = len(sites)
