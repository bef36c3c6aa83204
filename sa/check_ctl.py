"""C22: control queries reach the handler of exactly the name asked for, or are refused."""
import common
import front
import roles
from checks import check, sweep, configs, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import BaseChecker, Violation
from engine import Engine, Checker, T, assume, mk, split, root_of, known_const, nonnull

NODE = 'ctl_node'
LEAF, INDEXED, SUBTREE = 'CTL_NODE_LEAF', 'CTL_NODE_INDEXED', 'CTL_NODE_SUBTREE'
QUERIES = {'umfCtlGet': 0, 'umfCtlSet': 1, 'umfCtlExec': 2}
KIND = {0: 'read', 1: 'write', 2: 'run', 3: 'subtree'}


def layout(prog):
    """offsets of the members of a control node, from the debug-independent type layout"""
    for mod in prog.mods.values():
        for n in mod.types:
            if roles.sname(front.Type('named', n)) == NODE:
                ty = front.Type('named', n)
                offs = mod.offsets(mod.resolve(ty))[0]
                d = {mod.fieldname(ty.a if hasattr(ty, 'a') else n, i): o for i, o in enumerate(offs)}
                d['*'] = mod.size(ty)
                return d
    return None


def table_globals(prog):
    """[(global, module, {offset: value})] of every array of control nodes with contents known from the source"""
    eng = Engine(prog, Checker())
    out = []
    for mod in prog.mods.values():
        for g in mod.globals.values():
            if g.ext or g.init is None or g.ty.k != 'array' or roles.sname(g.ty.a) != NODE:
                continue
            m = {}
            eng.flatten(mod, g.ty, g.init, 0, m)
            out.append((g, mod, m))
    return out


def cstring(prog, v):
    """the text of a constant string"""
    b, off = split(v) if isinstance(v, T) else (None, 0)
    if not isinstance(b, T) or b.k != 'g':
        return None
    gm = prog.glob.get(b.a[0])
    if gm is None or gm[0].init is None or not gm[0].const:
        return None
    i = gm[0].init
    if i == ('zero',):
        return ''
    if isinstance(i, tuple) and i[0] == 'str':
        return bytes(i[1])[off:].split(b'\0')[0].decode('latin1')
    return None


class Tables:
    """the node tables of the source"""

    def __init__(self, prog):
        self.lay = L = layout(prog)
        self.tabs = []          # (global, module, [{field: value}])
        self.kinds = {}         # what the values of the type member mean, by how the tables use them
        self.handlers = {}      # function -> {slot}
        for g, mod, m in table_globals(prog):
            z = m.pop('zero', [])
            ns = []
            for k in range(mod.size(g.ty) // L['*']):
                o = k * L['*']
                n = {f: m.get(o + L[f]) for f in ('name', 'type', 'arg', 'children')}
                n['cb'] = [m.get(o + L['cb'] + 8 * j) for j in range(4)]
                n['cb'] = [v if isinstance(v, T) and v.k == 'f' else None for v in n['cb']]
                n['text'] = cstring(prog, n['name'])
                ns.append(n)
                t = n['type'] or 0
                if n['name'] in (None, 0):
                    continue
                for j, v in enumerate(n['cb']):
                    if v is not None:
                        self.handlers.setdefault(v.a[0], set()).add(j)
                kind = 'subtree' if n['cb'][3] is not None else 'leaf' if any(n['cb']) else 'inner' if n['children'] not in (None, 0) else None
                if kind:
                    self.kinds.setdefault(kind, {}).setdefault(t, []).append((g, k))
            self.tabs.append((g, mod, ns, any(n['name'] not in (None, 0) for n in ns)))

    def value(self, kind):
        """the value of the type member that most nodes of a kind carry"""
        d = self.kinds.get(kind, {})
        return max(d, key=lambda t: len(d[t])) if d else None


class CtlChecker(BaseChecker):
    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.tab = prog.__dict__.get('_ctltab') or Tables(prog)
        prog._ctltab = self.tab
        self.lay = self.tab.lay

    def setup(self, eng, fn, st, variant):
        eng.joinlimit = eng.joinlimit2 = eng.latecap = 10 ** 6
        args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        self.want = QUERIES.get(fn.name)
        if variant and variant[0] == 'own':
            assume(st, 'ne', args[0], 0, 64)
        elif variant:
            args[0] = 0
        if variant and len(variant) > 1:
            args[4] = variant[1]
            self.want = variant[1]
        self.args = args
        return args

    def gckeep(self, st):
        out = []
        for k, v in st.ts.items():
            if k == 'handler':
                out.append(v)
            elif k[0] == 'cmp':
                out += [k[1]] + [x for x in v if isinstance(x, T)]
            elif k[0] == 'tok':
                out += list(v)
        return out

    # ----------------------------------------------------------- what is read of the tree
    def node_of(self, eng, addr):
        tag = eng.tagof.get(addr)
        if not tag or tag[0] != NODE:
            return None
        o = self.lay.get(tag[1])
        if o is None:
            return None
        b, off = split(addr)
        if not isinstance(b, T):
            return None
        if tag[1] == 'cb':
            k = (off - o) // self.lay['*'] if off >= o else 0
        else:
            k = (off - o) // self.lay['*']
        if k < 0:
            return None
        return b, k * self.lay['*'], tag[1]

    def name_of(self, eng, st, b, off):
        return eng.mload(st, add(b, off + self.lay['name']))

    def load(self, eng, st, addr, val, ins, ctx):
        n = self.node_of(eng, addr)
        if n is None:
            return
        b, off, f = n
        if b.k not in ('g', 'arg', 'ld', 'obj'):
            self.count('node not resolved')
            return
        self.count('members of nodes read')
        if b.k == 'ld' and not nonnull(st, b):
            self.bad('no-children', f'{ins.fn.name}:{f}', ins, f'{ins.fn.name} reads a list of nodes that may not exist: nodes that end a name have no children', st)
        elif off and not nonnull(st, self.name_of(eng, st, b, off - self.lay['*'])):
            self.bad('past-end', f'{ins.fn.name}:{f}', ins, f'{ins.fn.name} goes on to the next node although the one before may be the end of the list', st)

    # ----------------------------------------------------------- names
    def call(self, eng, st, name, args, ins, ctx):
        if name == 'strtok_r' and len(args) == 3:
            r = mk('sym', 'strtok_r', ins.id, ctx)
            k = ('tok', args[2])
            st.ts[k] = (r,) if args[0] != 0 else st.ts.get(k, ()) + (r,)
            if args[0] != 0:
                st.ts[('text', args[2])] = args[0]
                for o in [o for o, sep in st.ts.items() if o[0] == 'sep' and sep is args[1] and o[1] is not args[2]]:
                    st.ts.pop(o)
                    st.ts.pop(('tok', o[1]), None)
                st.ts[('sep', args[2])] = args[1]
            return [(st, r)]
        if name in ('strcmp', 'strncmp', 'memcmp'):
            r = mk('sym', name, ins.id, ctx)
            st.ts[('cmp', r)] = (args[0], args[1], args[2] if len(args) > 2 else None)
            return [(st, r)]
        if name == 'strlen':
            return [(st, mk('sym', 'strlen', args[0]))]
        if name in ('strtol', 'strtoll', 'strtoul') and len(args) == 3:
            r = mk('sym', name, ins.id, ctx)
            if args[1] != 0:
                e = mk('sym', 'rest', args[0], ins.id, ctx)
                assume(st, 'ne', e, 0, 64)
                eng.mstore(st, args[1], e)
                st.ts[('rest', r)] = e
            return [(st, r)]
        if name.startswith('slot:') and ins.tag and ins.tag[0] == NODE and ins.tag[1] == 'cb':
            return self.dispatch(eng, st, args, ins, ctx)
        return None

    def store(self, eng, st, addr, v, ins, ctx):
        tag = eng.tagof.get(addr)
        if not tag or tag[0] != 'ctl_index_utlist':
            return
        b, off = split(addr)
        st.ts[('index', b)] = 1
        if tag[1] == 'value' and isinstance(v, T):
            src = [x for x in subterms(v) if x.k == 'sym' and x.a[0] in ('strtol', 'strtoll', 'strtoul')]
            if src:
                self.count('indexes taken from a name')
                e = st.ts.get(('rest', src[0]))
                if e is None or known_const(st, eng.mload(st, e)) != 0:
                    self.bad('partial-index', ins.fn.name, ins, f'{ins.fn.name} takes a name for an index although more than a number may stand there', st)

    def matched(self, eng, st, b, off, tok):
        """was the name of this node found equal to the token on this path"""
        nm = self.name_of(eng, st, b, off)
        for k, v in st.ts.items():
            if k[0] == 'cmp' and known_const(st, k[1]) == 0:
                if {v[0], v[1]} == {nm, tok}:
                    n = v[2]
                    if n is None or isinstance(n, T) and any(x.k == 'sym' and x.a[0] == 'strlen' for x in subterms(n)) and split(n)[1] >= 1:
                        return True
        return False

    def dispatch(self, eng, st, args, ins, ctx):
        r = mk('sym', 'handler', ins.id, ctx)
        st.ts['handler'] = r
        self.count('handler calls')
        fv = eng.cur_callee
        key = ins.fn.name
        if not isinstance(fv, T) or fv.k != 'ld' or len(args) < 6:
            self.count('handler not resolved')
            return [(st, r)]
        b, off = split(add(fv.a[0], fv.a[1])) if fv.a[1] else split(fv.a[0])
        S = self.lay['*']
        j = off % S - self.lay['cb']
        off -= off % S
        if not isinstance(b, T) or b.k not in ('g', 'arg', 'ld', 'obj') or j % 8 or not 0 <= j < 32:
            self.count('handler not resolved')
            return [(st, r)]
        j //= 8
        if not nonnull(st, fv):
            self.bad('no-handler', key, ins, f'{key} calls the {KIND[j]} handler of a node without knowing that it has one', st)
        t = known_const(st, eng.mload(st, add(b, off + self.lay['type'])))
        leaf, sub = self.tab.value('leaf'), self.tab.value('subtree')
        if t is None or t not in (leaf, sub):
            self.bad('not-an-end', key, ins, f'{key} calls a handler of a node that may be an inner node of the tree', st)
        elif (t == sub) != (j == 3):
            self.bad('wrong-handler', f'{key}:{KIND[j]}', ins, f'{key} calls the {KIND[j]} handler of a {"subtree" if t == sub else "leaf"} node', st)
        elif j != 3 and self.want is not None and j != self.want:
            self.bad('wrong-handler', f'{key}:{KIND[j]}', ins, f'{self.root.name} calls the {KIND[j]} handler for a {KIND[self.want]} query', st)
        elif j == 3 and self.want is not None and known_const(st, args[5]) != self.want:
            self.bad('wrong-type', key, ins, f'the handler of a subtree is told another type of query than the one made', st)
        # the tree
        chain = [(b, off)]
        x = b
        while x.k == 'ld':
            p, o = split(add(x.a[0], x.a[1])) if x.a[1] else split(x.a[0])
            if not isinstance(p, T):
                break
            chain.append((p, o - o % S))
            x = p
        if self.variant and self.variant[0] == 'own' and x is not self.args[0]:
            self.bad('wrong-tree', key, ins, f'a query of a tree of its own reaches a handler of another tree, which expects another kind of object', st)
        chain.reverse()
        # the name
        seqs = [v for k, v in st.ts.items() if k[0] == 'tok' and v and self.matched(eng, st, chain[0][0], chain[0][1], v[0])]
        allt = [k for k in st.ts if k[0] == 'tok']
        if allt:
            self.count('names followed')
            if not seqs:
                self.bad('other-name', key, ins, f'{key} calls the handler of a node whose name was not found equal to the name asked for', st)
            for k, v in st.ts.items():
                if k[0] != 'tok' or v not in seqs:
                    continue
                for (p, o), tok in zip(chain, v):
                    if not self.matched(eng, st, p, o, tok):
                        self.bad('other-name', key, ins, f'{key} calls the handler of a node whose name was not found equal to that part of the name asked for', st)
                rest = v[len(chain):]
                if len(v) < len(chain):
                    self.bad('other-name', key, ins, f'{key} calls the handler of a node below the one the name stands for', st)
                elif j != 3 and not (rest and known_const(st, rest[0]) == 0):
                    self.bad('rest-of-name', key, ins, f'{key} calls the handler of a leaf although the name may go on', st)
                elif j == 3 and rest and nonnull(st, rest[0]) and (self.variant is None or len(self.variant) > 1):
                    w = add(self.query(eng, st, k[1]), rest[0])
                    w = self.minus(w, st.ts.get(('text', k[1])))
                    if w is not None and args[4] is not w and not self.opaque(args[4]):
                        self.bad('wrong-rest', key, ins, f'the handler of a subtree does not get the rest of the name', st)
        # what is passed
        if self.variant is None or len(self.variant) > 1:
            a = self.args
            ctxv, arg = (a[1], a[2]) if self.variant is None else (a[1], a[5])
            if args[0] is not ctxv:
                self.bad('wrong-object', key, ins, 'the handler is given another object than the one of the query', st)
            if args[2] is not arg and (self.variant is None or known_const(st, a[2]) is not None and self.want != 1):
                self.bad('wrong-argument', key, ins, 'the handler is given another argument than the one of the query', st)
        # the indexes
        seen, q = [], args[3]
        while isinstance(q, T) and q not in seen:
            seen.append(q)
            q = eng.mload(st, add(q, self.nextoff())) if ('index', q) in st.ts else None
        for k in list(st.ts):
            if k[0] == 'index' and k[1] not in seen and ('freed', k[1]) not in st.ts and not self.opaque(args[3]):
                self.bad('index-lost', key, ins, 'an index parsed from the name is not on the list the handler gets', st)
        return [(st, r)]

    def nextoff(self):
        o = self.prog.__dict__.get('_ctlnext')
        if o is None:
            o = 16
            for mod in self.prog.mods.values():
                for n in mod.types:
                    if roles.sname(front.Type('named', n)) == 'ctl_index_utlist':
                        ty = front.Type('named', n)
                        offs = mod.offsets(mod.resolve(ty))[0]
                        for i, x in enumerate(offs):
                            if mod.fieldname(n, i) == 'next':
                                o = x
            self.prog._ctlnext = o
        return o

    def opaque(self, v):
        return isinstance(v, T) and any(x.k == 'sym' and x.a[0] in ('join', 'hv') for x in subterms(v))

    def query(self, eng, st, save):
        return self.args[3] if self.variant else self.args[0]

    def minus(self, w, t):
        if not isinstance(t, T):
            return None
        return add(w, mul(t, -1))

    def release(self, eng, st, kind, v, ins, ctx, extra=None):
        if isinstance(v, T):
            st.ts[('freed', v)] = 1

    # ----------------------------------------------------------- results
    def root_exit(self, eng, st, fn, ret, ins):
        if ins is None:
            return
        self.count('returns examined')
        if self.want is None:
            return
        h = st.ts.get('handler')
        z = known_const(st, ret) if ret is not None else None
        nz = ret is not None and nonnull(st, ret)
        if h is None:
            if not nz:
                self.bad('refused-not-reported', fn.name, ins, f'{fn.name} may report success without having reached a handler', st)
            return
        if ret is h:
            return
        hz, hn = known_const(st, h) == 0, nonnull(st, h)
        if not (z == 0 and hz or nz and hn):
            self.bad('result-lost', fn.name, ins, f'the result of {fn.name} does not tell whether the handler succeeded', st)


class HandlerChecker(BaseChecker):
    """the handlers themselves and the control operation of providers and pools; variant: the kind of the function"""

    def setup(self, eng, fn, st, variant):
        self.args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        return self.args

    def gckeep(self, st):
        return [st.ts['down']] if 'down' in st.ts else ()

    def call(self, eng, st, name, args, ins, ctx):
        down = name == 'ctl_query' or name.startswith('slot:') and ins.tag and ins.tag[1] == 'ctl'
        if down:
            r = mk('sym', 'handler', ins.id, ctx)
            self.count('queries handed on')
            if 'down' in st.ts:
                self.bad('asked-twice', self.root.name, ins, f'{self.root.name} hands the query on more than once', st)
            st.ts['down'] = r
            own = self.args
            nm, arg, ty = (own[4], own[2], own[5]) if self.variant == 3 else (own[2], own[3], own[4])
            got = (args[3], args[5], args[4]) if name == 'ctl_query' else (args[2], args[3], args[4])
            for what, x, y in zip(('name', 'argument', 'type of query'), (nm, arg, ty), got):
                if not same(st, x, y):
                    self.bad('handed-on', f'{self.root.name}:{what.split()[0]}', ins, f'{self.root.name} hands on another {what} than the one it got', st)
            if name == 'ctl_query' and not nonnull(st, args[0]):
                self.bad('no-tree', self.root.name, ins, f'{self.root.name} asks its tree of controls without knowing that it exists: the global one would answer', st)
            return [(st, r)]
        return None

    def store(self, eng, st, addr, v, ins, ctx):
        b, off = split(addr)
        if self.variant == 0 and len(self.args) > 2 and b is self.args[2]:
            st.ts['answered'] = 1

    def root_exit(self, eng, st, fn, ret, ins):
        if ins is None or ret is None:
            return
        self.count('returns examined')
        zero, nz = known_const(st, ret) == 0, nonnull(st, ret)
        if self.variant == 0 and zero and 'answered' not in st.ts:
            self.bad('not-answered', fn.name, ins, f'{fn.name} reports success without having stored the value asked for', st)
        if self.variant in (3, 'op'):
            d = st.ts.get('down')
            if d is None:
                if not nz:
                    self.bad('refused-not-reported', fn.name, ins, f'{fn.name} may report success although the query went nowhere', st)
            elif ret is not d and not (zero and known_const(st, d) == 0 or nz and nonnull(st, d)):
                self.bad('result-lost', fn.name, ins, f'the result of {fn.name} does not tell whether the query succeeded', st)


def same(st, x, y):
    if x is y:
        return True
    a, b = known_const(st, x), known_const(st, y)
    return a is not None and a == b


class RegisterChecker(BaseChecker):
    """the function that adds a node to a tree"""

    def setup(self, eng, fn, st, variant):
        self.tab = self.prog.__dict__.get('_ctltab') or Tables(self.prog)
        self.args = [mk('arg', p[1:], fn.uname) for p in fn.params]
        return self.args

    def store(self, eng, st, addr, v, ins, ctx):
        tag = eng.tagof.get(addr)
        if tag and tag[0] == NODE:
            st.ts[('st', tag[1])] = (add(addr, -self.tab.lay[tag[1]]), v)
        elif not (tag and tag[0] == NODE) and isinstance(v, T):
            st.ts[('cnt', addr)] = v

    def root_exit(self, eng, st, fn, ret, ins):
        if ins is None:
            return
        d = {k[1]: v for k, v in st.ts.items() if k[0] == 'st'}
        self.count('registrations examined')
        inner = self.tab.value('inner')
        for f, w in (('name', self.args[1]), ('children', self.args[2]), ('type', inner)):
            if f not in d:
                self.bad('registered', f'{fn.name}:{f}', ins, f'{fn.name} leaves the {f} of the new node unset', st)
            elif not (d[f][1] is w or w is inner and known_const(st, d[f][1]) == w):
                self.bad('registered', f'{fn.name}:{f}', ins, f'{fn.name} gives the new node another {f} than the one it was asked for', st)
        nodes = {v[0] for v in d.values()}
        if len(nodes) == 1:
            # the counter moved by one, and the node is the one at its old value
            n = nodes.pop()
            ok = False
            for k, v in st.ts.items():
                if k[0] == 'cnt':
                    old = add(v, -1)
                    if isinstance(n, T) and old in list(subterms(n)):
                        ok = True
            if not ok:
                self.bad('registered', f'{fn.name}:place', ins, f'{fn.name} does not put the new node right after the ones registered before', st)


def add(a, b):
    from engine import add as _add
    return _add(a, b)


def mul(t, c):
    from engine import scale as _mul
    return _mul(t, c)


def static_rules(rep, prog, config):
    tab = prog.__dict__.get('_ctltab') or Tables(prog)
    prog._ctltab = tab
    n = 0

    def bad(rule, key, g, mod, msg):
        rep.add(Violation(rule, rule + '|' + key, mod.name if hasattr(mod, 'name') else g.name, 0, g.name, msg))
    for kind, d in tab.kinds.items():
        if len(d) > 1:
            w = tab.value(kind)
            for t, l in d.items():
                if t != w:
                    for g, k in l:
                        bad('table', f'{g.name}:{k}:type', g, tab_mod(tab, g), f'node {k} of {g.name} is marked as another kind of node than its members make it')
    for g, mod, ns, filled in tab.tabs:
        if not filled:
            continue
        n += 1
        ends = [k for k, x in enumerate(ns) if x['name'] in (None, 0)]
        if not ends:
            bad('table', f'{g.name}:end', g, mod, f'the list of nodes {g.name} has no end: a walk over it leaves the array')
        names = set()
        for k, x in enumerate(ns[:ends[0]] if ends else ns):
            rep.obligations += 1
            if x['text'] is not None:
                if not x['text'] or '.' in x['text']:
                    bad('table', f'{g.name}:{k}:name', g, mod, f'node {k} of {g.name} has a name no query can spell')
                if x['text'] in names:
                    bad('table', f'{g.name}:{x["text"]}:twice', g, mod, f'{g.name} has two nodes named {x["text"]}: the second can never be reached')
                names.add(x['text'])
            ch = x['children'] if x['children'] not in (0,) else None
            if not any(x['cb']) and ch is None:
                bad('table', f'{g.name}:{x["text"]}:dead', g, mod, f'node {x["text"]} of {g.name} has neither a handler nor children')
            if any(x['cb']) and ch is not None:
                bad('table', f'{g.name}:{x["text"]}:both', g, mod, f'node {x["text"]} of {g.name} has handlers and children')
        for k, x in enumerate(ns[ends[0]:] if ends else ()):
            if x['name'] not in (None, 0):
                bad('table', f'{g.name}:{x["text"]}:behind', g, mod, f'node {x["text"]} of {g.name} stands behind the end of the list and can never be reached')
    rep.need(f'node tables ({config})', n, 3)
    # registrations
    sites = {}
    room = None
    for g, mod, ns, filled in tab.tabs:
        if not filled and len(ns) > 1:
            room = len(ns)
    reg = [f for f in prog.fn.values() if f.name == 'ctl_register_module_node']
    once = set()
    for f in prog.fn.values():
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'call' and isinstance(i.x.get('callee'), tuple) and len(i.x['callee']) > 1:
                    if i.x['callee'][1] == 'ctl_register_module_node':
                        sites.setdefault(f.uname, []).append(i)
                    if i.x['callee'][1] in ('utils_init_once', 'pthread_once'):
                        for a in i.args:
                            if isinstance(a, tuple) and len(a) == 2 and a[0] == 'g':
                                t = prog.resolve_fn(prog.mods[f.tu], a[1])
                                if t is not None:
                                    once.add(t.uname)
    callers = common.direct_callers(prog)
    for u, l in sites.items():
        f = prog.fn[u]
        rep.obligations += len(l)
        if u not in once and not (callers.get(u) and callers[u] <= once):
            rep.add(vio_site('registration', f'registration|{f.name}:repeated', l[0], f'{f.name} registers control nodes each time it is called, the array of nodes has a fixed size'))
        elif u in once and callers.get(u, set()) - once:
            rep.add(vio_site('registration', f'registration|{f.name}:repeated', l[0], f'{f.name}, which registers control nodes, is also called outside its once-only initialisation'))
        if in_loop(f, l):
            rep.add(vio_site('registration', f'registration|{f.name}:loop', l[0], f'{f.name} registers control nodes in a loop, the array of nodes has a fixed size'))
        if room is not None and len(l) > room - 1:
            rep.add(vio_site('registration', f'registration|{f.name}:room', l[0], f'{f.name} registers more nodes than there is room for'))
    rep.need(f'registrations ({config})', sum(map(len, sites.values())), 1)


def tab_mod(tab, g):
    return next(m for x, m, _, _ in tab.tabs if x is g)


def vio_site(rule, key, ins, msg):
    return common.vio(rule, key, ins, msg)


def in_loop(f, l):
    """does a block with one of the instructions lie on a cycle"""
    succ = {}
    for n, b in f.blocks.items():
        succ[n] = list(b.succs)
    ids = {i.id for i in l}
    for n, b in f.blocks.items():
        if not any(i.id in ids for i in b.insts):
            continue
        seen, work = set(), list(succ[n])
        while work:
            x = work.pop()
            if x == n:
                return True
            if x not in seen:
                seen.add(x)
                work += succ.get(x, [])
    return False


RULES = ['no-children', 'past-end', 'partial-index', 'no-handler', 'not-an-end', 'wrong-handler', 'wrong-type', 'wrong-tree', 'other-name',
         'rest-of-name', 'wrong-rest', 'wrong-object', 'wrong-argument', 'index-lost', 'refused-not-reported', 'result-lost', 'asked-twice',
         'handed-on', 'no-tree', 'not-answered', 'registered', 'table', 'registration']


def ctl_roots(prog):
    out = []
    for f in common.roots(prog, tus=['src/ctl/']):
        if f.internal:
            continue
        if f.name == 'ctl_query' and len(f.params) == 6:
            out += [(f, (t, q)) for t in ('own', 'none') for q in (0, 1, 2)]
        elif f.name.startswith('ctl_load_config'):
            out += [(f, ('own',)), (f, ('none',))]
        else:
            out.append((f, None))
    return out


def handler_roots(prog):
    tab = prog.__dict__.get('_ctltab') or Tables(prog)
    prog._ctltab = tab
    out = []
    for u, js in sorted(tab.handlers.items()):
        f = prog.fn.get(u)
        if f is not None:
            out += [(f, j) for j in sorted(js)]
    for u, tags in roles.roles(prog).items():
        f = prog.fn.get(u)
        if f is not None and any(t[1] == 'ctl' and 'ops' in t[0] for t in tags):
            out.append((f, 'op'))
    return out


@check('C22', 'static tables of control nodes plus all paths of the walk over them', PATHNOTE)
def c22(rep):
    rep.explanation = (
        'The tables of control nodes are read from the source: each has an end, no two names clash, every node has a handler or children of the '
        'kind its mark says. Every path of a query is followed with each comparison of a name going either way: members of a node are only read '
        'after the node before it was seen not to be the end and a list of children only when there is one; a handler is only called when it '
        'exists, belongs to the type of query, and when each part of the name asked for was found equal to the name of the node on the way and '
        'nothing is left over (or the rest is handed to a subtree); a query of a tree of its own stays in that tree; the object, argument and '
        'all parsed indexes are passed; and the caller sees success exactly when the handler reported it. The handlers and control operations '
        'of providers and pools hand the query on unchanged and once, and a read handler that reports success has stored the value.')
    rep.rules = RULES
    rep.assumptions = ENGINE_ASSUME + ['strtok_r, strcmp and strtol behave as the C standard says']
    for c in ('full', 'release'):
        static_rules(rep, front.load(c), c)
    res = sweep(rep, CtlChecker, ['full', 'release'], rootsel=ctl_roots, unroll=1, maxstates=4000)
    rs2 = sweep(rep, HandlerChecker, ['full', 'nohwloc', 'release'], rootsel=handler_roots)
    rs3 = sweep(rep, RegisterChecker, ['full'], rootsel=lambda p: [f for f in p.fn.values() if f.name == 'ctl_register_module_node'])
    tot = {}
    for _, _, r in res + rs2 + rs3:
        for k, v in r['counts'].items():
            tot[k] = tot.get(k, 0) + v
    rep.stats['counts'] = tot
    rep.obligations += tot.get('handler calls', 0) + tot.get('members of nodes read', 0) + tot.get('returns examined', 0)
    rep.need('handler calls', tot.get('handler calls', 0), 1)
    rep.need('returns examined', tot.get('returns examined', 0), 10)


def subterms(v):
    from engine import subterms as _s
    out = set()
    _s(v, out)
    return out
