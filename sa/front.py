"""Front end: compiles /repo's current sources to LLVM IR (no execution of the
code under analysis) and parses the IR of each translation unit.

Only the compiler's semantic view of the program (resolved callees, types,
control flow, debug info) is used; nothing here looks at source text.
"""
import os, re, subprocess, sys, tempfile, shutil, json
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
LLVM = '/usr/lib/llvm-18/bin'

INCS = ['include', 'src/utils', 'src/base_alloc', 'src/coarse', 'src', 'src/ravl',
        'src/critnib', 'src/provider', 'src/memspaces', 'src/memtargets',
        'src/uthash', 'src/ctl', 'src/pool', 'src/proxy_lib']

VER = ['-DUMF_VERSION=0.0.0', '-DUMF_ALL_CMAKE_VARIABLES="x"']

# build configurations that exist in the project (see src/CMakeLists.txt).
CONFIGS = {
    # shared library, hwloc + Level Zero (the shipped Linux configuration)
    'full': dict(defs=['-DUMF_NO_CUDA_PROVIDER=1', '-DUMF_SHARED_LIBRARY'],
                 incs=['/usr/include/level_zero']),
    # no hwloc: every NUMA/file/devdax feature compiled out
    'nohwloc': dict(defs=['-DUMF_NO_CUDA_PROVIDER=1', '-DUMF_NO_DEVDAX_PROVIDER=1',
                          '-DUMF_NO_FILE_PROVIDER=1', '-DUMF_NO_HWLOC=1',
                          '-DUMF_NO_LEVEL_ZERO_PROVIDER=1'], incs=[]),
    # everything on, CUDA and jemalloc against declaration-only headers in /verif
    'all': dict(defs=['-DUMF_SHARED_LIBRARY', '-DUMF_POOL_JEMALLOC_ENABLED=1'],
                incs=['/usr/include/level_zero', os.path.join(HERE, 'stubinc')]),
    # the same as 'full' and 'proxy' with assertions compiled out, as users get them
    'release': dict(defs=['-DUMF_NO_CUDA_PROVIDER=1', '-DUMF_SHARED_LIBRARY', '-DNDEBUG'],
                    incs=['/usr/include/level_zero']),
    'proxyrel': dict(defs=['-DUMF_SHARED_LIBRARY', '-DPROXY_LIB_USES_SCALABLE_POOL=1',
                           '-DUMF_NO_CUDA_PROVIDER=1', '-DNDEBUG'], incs=[]),
    # the malloc-replacement library
    'proxy': dict(defs=['-DUMF_SHARED_LIBRARY', '-DPROXY_LIB_USES_SCALABLE_POOL=1',
                        '-DUMF_NO_CUDA_PROVIDER=1'], incs=[]),
}


class AnalysisError(Exception):
    """the analysis itself is broken (neither pass nor violation)"""


def sources(config):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if not f.endswith('.c'):
                continue
            if 'windows' in f or 'macosx' in f:
                continue
            isproxy = os.path.basename(d) == 'proxy_lib'
            if isproxy and not config.startswith('proxy'):
                continue
            if config.startswith('proxy') and not isproxy and not (
                    f.startswith('base_alloc')
                    or (f.startswith('utils_') and 'load_library' not in f)):
                continue
            if config == 'nohwloc':
                # src/CMakeLists.txt: hwloc dependent sources are not built
                if f in NOHWLOC_SKIP:
                    continue
            out.append(os.path.join(d, f))
    return sorted(out)


# src/CMakeLists.txt: hwloc-dependent sources are not built without hwloc
NOHWLOC_SKIP = {'topology.c', 'memtarget_numa.c'}


def compile_tu(src, config, outdir):
    c = CONFIGS[config]
    rel = os.path.relpath(src, REPO)
    base = os.path.join(outdir, rel.replace('/', '_'))
    cmd = [LLVM + '/clang', '-g', '-O0', '-Xclang', '-disable-O0-optnone',
           '-fno-discard-value-names', '-fPIC', '-std=gnu17', '-w', '-U_FORTIFY_SOURCE'] + VER + c['defs'] + \
          ['-I' + i for i in c['incs']] + ['-I' + os.path.join(REPO, i) for i in INCS] + \
          ['-emit-llvm', '-c', src, '-o', base + '.bc']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return rel, None, r.stderr
    r = subprocess.run([LLVM + '/opt', '-passes=sroa', '-S', base + '.bc', '-o', base + '.ll'],
                       capture_output=True, text=True)
    if r.returncode:
        return rel, None, r.stderr
    return rel, base + '.ll', None


# ----------------------------------------------------------------- IR parsing
SIGSTRIP = re.compile(r',? !(?:dbg )?[a-z.]*!?\d*(?= |,|$)|,? ![a-z.]+ !\d+| #\d+|, !dbg !\d+')
REFS = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)')


def fingerprint(prog, f):
    """hash of the IR reachable from f through direct calls and referenced globals"""
    import hashlib
    seen = {}
    work = [(prog.mods[f.tu], f)]
    while work:
        mod, x = work.pop()
        key = ('f' if isinstance(x, Fn) else 'g') + x.uname
        if key in seen:
            continue
        seen[key] = x.text
        if isinstance(x, Global) and not x.const:
            # function tables the analysis does not treat as constant are not looked through
            continue
        for r in set(REFS.findall(x.text)):
            r = r.strip('"')
            t = prog.resolve_fn(mod, r)
            if t is not None:
                work.append((prog.mods[t.tu], t))
                continue
            g, m = prog.resolve_glob(mod, r)
            if g is not None:
                work.append((m, g))
    h = hashlib.sha1()
    for k in sorted(seen):
        h.update(k.encode()); h.update(seen[k].encode())
    return h.hexdigest()


TOK = re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"|"(?:[^"\\]|\\..)*"'
                 r'|%"[^"]*"|@"[^"]*"|%[-a-zA-Z$._0-9]+|@[-a-zA-Z$._0-9]+|!"[^"]*"|![-a-zA-Z$._0-9]*'
                 r'|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[a-zA-Z_][a-zA-Z_0-9.]*|#\d+'
                 r'|[()\[\]{}<>,=*|:])')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise AnalysisError('tokenize: ' + s[i:i + 60] + ' in ' + s[:200])
        out.append(m.group(1))
        i = m.end()
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly',
               'writeonly', 'returned', 'immarg', 'readnone', 'inbounds', 'nuw', 'nsw', 'exact',
               'volatile', 'dso_local', 'nofree', 'align', 'dereferenceable', 'byval', 'sret', 'noreturn',
               'allocptr', 'dereferenceable_or_null', 'swiftself', 'nest', 'disjoint', 'nneg', 'tail',
               'notail', 'musttail', 'fastcc', 'ccc', 'atomic', 'dead_on_unwind', 'writable',
               'returns_twice', 'nounwind', 'cold'}


class Type:
    __slots__ = ('k', 'a', 'n')

    def __init__(self, k, a=None, n=0):
        self.k = k; self.a = a; self.n = n

    def __repr__(self):
        return f'{self.k}:{self.a}:{self.n}' if self.k not in ('ptr', 'int') else (self.k + (str(self.n) if self.n else ''))


PTR = Type('ptr')
VOID = Type('void')


class P:
    """recursive-descent parser over tokens of one line"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                self.i += 1
                if self.peek() == '(' and t in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'align'):
                    self.skip_paren()
                elif t == 'align' and self.peek().isdigit():
                    self.i += 1
            elif t.startswith('"') and t:
                self.i += 1
                if self.eat('='):
                    self.i += 1
            elif t.startswith('#'):
                self.i += 1
            else:
                break

    def skip_paren(self):
        d = 0
        while True:
            t = self.next()
            if t in '([{<' and len(t) == 1:
                d += 1
            elif t in ')]}>' and len(t) == 1:
                d -= 1
                if d == 0:
                    return

    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.i += 1; self.skip_paren()
            r = PTR
        elif t == 'void':
            r = VOID
        elif re.fullmatch(r'i\d+', t):
            r = Type('int', None, int(t[1:]))
        elif t[0] == '%':
            r = Type('named', t[1:].strip('"'))
        elif t == '[':
            n = int(self.next()); assert self.next() == 'x'
            e = self.type(); assert self.next() == ']'
            r = Type('array', e, n)
        elif t == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    assert self.next() == ','
            r = Type('struct', fs)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'):
                            break
                        assert self.next() == ','
                assert self.next() == '>'
                r = Type('struct', fs, 1)
            else:
                n = int(self.next()); assert self.next() == 'x'
                e = self.type(); assert self.next() == '>'
                r = Type('array', e, n)
        elif t in ('double', 'float', 'x86_fp80', 'fp128', 'half'):
            r = Type('fp', t, {'double': 8, 'float': 4, 'half': 2}.get(t, 16))
        elif t in ('metadata', 'label', 'token', 'opaque'):
            r = Type(t)
        else:
            raise AnalysisError('type? ' + t + ' in ' + ' '.join(self.t[:40]))
        while self.peek() == '(':     # function type: ret (args)
            self.skip_paren()
        return r

    def value(self, ty):
        """operand of known type -> int | '%x' | tuple"""
        self.skip_attrs()
        t = self.next()
        if t[0] == '%':
            return t
        if t[0] == '@':
            return ('g', t[1:].strip('"'))
        c = t[0]
        if c.isdigit() or (c == '-' and len(t) > 1):
            if '.' in t or t.startswith('0x'):
                return ('fp', t)
            return int(t)
        if t == 'null' or t == 'false':
            return 0
        if t == 'true':
            return 1
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',) if ty is not None and ty.k not in ('int', 'ptr') else 0
        if t == 'getelementptr':
            self.skip_attrs()
            assert self.next() == '('
            self.skip_attrs()
            ety = self.type(); assert self.next() == ','
            ops = []
            while True:
                oty = self.type()
                ops.append(self.value(oty))
                if self.eat(')'):
                    break
                assert self.next() == ','
            return ('cgep', ety, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            assert self.next() == '('
            ity = self.type(); v = self.value(ity)
            assert self.next() == 'to'
            self.type(); assert self.next() == ')'
            return v
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'icmp', 'select'):
            self.skip_paren()
            return ('undef',)
        if t[0] == 'c' and t[1:2] == '"':
            return ('str', unescape(t[2:-1]))
        if t in ('{', '[', '<'):
            packed = t == '<' and self.eat('{')
            vs = []
            close = {'{': '}', '[': ']', '<': '>'}[t] if not packed else '}'
            if not self.eat(close):
                while True:
                    vty = self.type()
                    vs.append((vty, self.value(vty)))
                    if self.eat(close):
                        break
                    assert self.next() == ','
            if packed:
                assert self.next() == '>'
            return ('agg', vs)
        if t == 'metadata' or t[0] == '!':
            return ('md',)
        if t == 'asm':
            return ('asm',)
        raise AnalysisError('value? ' + t + ' in ' + ' '.join(self.t[:60]))

    def typed(self):
        ty = self.type()
        self.skip_attrs()
        if ty.k == 'metadata':
            # skip to , or )
            while self.peek() not in (',', ')', ''):
                if self.peek() == '(':
                    self.skip_paren()
                else:
                    self.i += 1
            return ty, ('md',)
        return ty, self.value(ty)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i]) & 255); i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'fn', 'id', 'tag', 'blk')

    def __init__(self, op, res, ty, args, x=None, line=0):
        self.op = op; self.res = res; self.ty = ty; self.args = args; self.x = x; self.line = line
        self.fn = None; self.id = None; self.tag = None; self.blk = None

    def where(self):
        return f'{self.fn.file}:{self.line} ({self.fn.name})'

    def __repr__(self):
        return f'{self.res or ""}={self.op} {self.args} {self.x} @{self.line}'


class Block:
    __slots__ = ('name', 'insts', 'phis', 'preds', 'succs', 'rpo', 'livein', 'loop', 'isheader')

    def __init__(self, name):
        self.name = name; self.insts = []; self.phis = []; self.preds = []; self.succs = []
        self.rpo = -1; self.livein = None; self.loop = None; self.isheader = False


class Fn:
    __slots__ = ('parfn', 'name', 'uname', 'params', 'ptys', 'rty', 'blocks', 'order', 'file', 'line', 'internal',
                 'tu', 'dbg', 'loops', 'backedges', 'vararg', 'entry', 'retdi', 'paramdi', 'ninst', 'enumret', 'defs', 'text')

    def __repr__(self):
        return f'<{self.uname}>'


class Global:
    __slots__ = ('name', 'uname', 'ty', 'init', 'const', 'internal', 'tu', 'tls', 'ext', 'text', 'enumty')


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'sitofp', 'uitofp', 'fptosi',
         'fptoui', 'fpext', 'fptrunc', 'addrspacecast'}


class Module:
    """one translation unit"""
    def __init__(self, path, rel):
        self.rel = rel
        self.types = {}
        self.fns = {}
        self.globals = {}
        self.decls = {}
        self.md = {}
        self._szc = {}
        self.fieldnames = {}
        self.parse(path)

    # ---- layout
    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.a]
        return ty

    def size(self, ty):
        k = ty.k
        if k == 'ptr':
            return 8
        if k == 'int':
            return (max(1, (ty.n + 7) // 8) if ty.n not in (24, 48) else 8)
        if k == 'fp':
            return ty.n
        if k == 'array':
            return ty.n * self.size(ty.a)
        if k == 'named':
            r = self._szc.get(ty.a)
            if r is None:
                r = self.size(self.types[ty.a]) if ty.a in self.types and self.types[ty.a].k != 'opaque' else 0
                self._szc[ty.a] = r
            return r
        if k == 'struct':
            return self.offsets(ty)[1]
        return 0

    def align(self, ty):
        k = ty.k
        if k == 'array':
            return self.align(ty.a)
        if k == 'named':
            return self.align(self.types[ty.a])
        if k == 'struct':
            if ty.n:
                return 1
            return max([self.align(f) for f in ty.a] or [1])
        if k in ('fp',):
            return min(ty.n, 16)
        return max(1, min(16, self.size(ty)))

    def offsets(self, ty):
        off = 0; offs = []; al = 1
        for f in ty.a:
            a = 1 if ty.n else self.align(f)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
            al = max(al, a)
        off = (off + al - 1) // al * al
        return offs, off

    def fieldname(self, sname, idx):
        fn = self.fieldnames.get(sname)
        if fn is None:
            return str(idx)
        offs, _ = self.offsets(self.types[sname])
        return fn.get(offs[idx], str(idx))

    # ---- parsing
    def parse(self, path):
        lines = open(path, encoding='latin-1').read().split('\n')
        i = 0
        n = len(lines)
        pend = []
        while i < n:
            l = lines[i]
            if l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'%("?)([^"]*?)\1 = type (.*)', l)
                p = P(tokenize(m.group(3)), self)
                self.types[m.group(2)] = p.type() if m.group(3) != 'opaque' else Type('opaque')
            elif l.startswith('@'):
                pend.append(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                pend.append((l, lines[i + 1:j]))
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@([-a-zA-Z$._0-9]+)\(', l)
                if m:
                    self.decls[m.group(1)] = l
            i += 1
        self.parse_fields()
        for x in pend:
            if isinstance(x, str):
                self.parse_global(x)
            else:
                self.parse_fn(*x)
        self.md_keep()

    def mdget(self, i, key):
        s = self.md.get(i, '')
        m = re.search(r'[( ]' + key + r': ("[^"]*"|![0-9]+|[-\w| ]+)', s)
        if not m:
            return None
        v = m.group(1)
        if v[0] == '"':
            return v[1:-1]
        if v[0] == '!':
            return int(v[1:])
        return v.strip()

    def mdlist(self, i):
        s = self.md.get(i, '')
        return [int(x) for x in re.findall(r'!(\d+)', s)] if s.startswith('!{') else []

    def parse_fields(self):
        md = self.md
        tdefs = {}
        late = []
        self.enums = {}
        for i, s in md.items():
            if s.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
                b = self.mdget(i, 'baseType')
                if b is not None:
                    tdefs.setdefault(b, self.mdget(i, 'name'))
        self.diname = tdefs
        for i, s in md.items():
            if s.startswith('!DICompositeType(tag: DW_TAG_structure_type') or s.startswith('!DICompositeType(tag: DW_TAG_union_type'):
                nm = self.mdget(i, 'name') or tdefs.get(i)
                el = self.mdget(i, 'elements')
                if nm is None or el is None:
                    continue
                pre = 'union.' if 'union_type' in s else 'struct.'
                d = {}
                for e in self.mdlist(el):
                    off = self.mdget(e, 'offset')
                    o = int(off) // 8 if off else 0
                    d.setdefault(o, self.mdget(e, 'name'))
                    if pre == 'struct.':
                        late.append((nm, self.mdget(e, 'name'), self.mdget(e, 'baseType')))
                self.fieldnames[pre + nm] = d
            elif s.startswith('!DICompositeType(tag: DW_TAG_enumeration_type'):
                nm = self.mdget(i, 'name') or tdefs.get(i)
                el = self.mdget(i, 'elements')
                if el is not None:
                    vals = {}
                    for e in self.mdlist(el):
                        es = md[e]
                        m = re.search(r'name: "([^"]*)", value: (-?\d+)', es)
                        if m:
                            vals[m.group(1)] = int(m.group(2))
                    self.enums[i] = (nm, vals)
        # members that hold an enumeration, or a function returning one
        self.fieldenum = {}
        self.fieldfn = {}
        self.fieldptr = {}     # (struct, member) -> what a pointer member points to: fn, handle, opaque, void, data
        for st, fld, di in late:
            e = self.ptr_kind(di)
            if e is not None:
                self.fieldptr[(st, fld)] = e
            e = self.enum_of(di)
            if e is not None:
                self.fieldenum[(st, fld)] = e
            e = self.fnret_enum(di)
            if e is not None:
                self.fieldfn[(st, fld)] = e

    def ptr_kind(self, di):
        d = 0
        handle = False
        while di is not None and d < 12:
            d += 1
            s = self.md.get(di, '')
            if 'DW_TAG_pointer_type' in s:
                b = self.mdget(di, 'baseType')
                if handle:
                    return 'handle'
                if b is None:
                    return 'void'
                while b is not None:
                    t = self.md.get(b, '')
                    if 'DISubroutineType' in t:
                        return 'fn'
                    if 'DIFlagFwdDecl' in t:
                        return 'opaque'
                    if not ('DW_TAG_typedef' in t or 'DW_TAG_const_type' in t or 'DW_TAG_volatile_type' in t):
                        return 'data'
                    n = self.mdget(b, 'baseType')
                    if n is None:
                        return 'void'
                    b = n
                return 'void'
            if 'DW_TAG_typedef' in s or 'DW_TAG_const_type' in s or 'DW_TAG_volatile_type' in s:
                nm = self.mdget(di, 'name') or ''
                if nm.endswith('_handle_t') and not nm.endswith('params_handle_t'):
                    handle = True
                di = self.mdget(di, 'baseType')
                continue
            return None
        return None

    def fnret_enum(self, di):
        """enum returned by the function a pointer of this DI type points to"""
        k = self.deref_type(di)
        if k[0] != 'ptr':
            return None
        di = k[1]
        d = 0
        while di is not None and d < 8:
            s = self.md.get(di, '')
            if 'DISubroutineType' in s:
                tl = self.mdget(di, 'types')
                x = re.search(r'(null|!(\d+))', self.md.get(tl, '')[2:]) if tl is not None else None
                return self.enum_of(int(x.group(2))) if x and x.group(2) else None
            if s.startswith('!DIDerivedType') and 'pointer_type' not in s:
                di = self.mdget(di, 'baseType'); d += 1
                continue
            return None
        return None

    def parse_global(self, l):
        m = re.match(r'@("?)([^"=]*?)\1 = (.*)', l)
        name = m.group(2)
        rest = m.group(3)
        rest = re.split(r', (?:align \d+|!dbg|section|comdat|partition)', rest)[0]
        words = tokenize(rest)
        p = P(words, self)
        g = Global(); g.name = name; g.tu = self.rel; g.tls = False; g.const = False; g.internal = False; g.ext = False
        while True:
            t = p.peek()
            if t in ('internal', 'private'):
                g.internal = True
            elif t == 'thread_local':
                g.tls = True
                p.next()
                if p.peek() == '(':
                    p.skip_paren()
                continue
            elif t in ('external', 'extern_weak'):
                g.ext = True
            elif t in ('unnamed_addr', 'local_unnamed_addr', 'dso_local', 'hidden', 'default', 'common', 'weak', 'linkonce_odr', 'appending', 'protected', 'externally_initialized'):
                pass
            elif t == 'global':
                p.next(); break
            elif t == 'constant':
                g.const = True; p.next(); break
            elif t in ('alias', 'ifunc'):
                return
            else:
                raise AnalysisError('global? ' + l[:120])
            p.next()
        g.ty = p.type()
        g.init = None
        if not g.ext and p.peek():
            g.init = p.value(g.ty)
        g.uname = (self.rel + ':' + name) if g.internal else name
        g.text = SIGSTRIP.sub('', l)
        g.enumty = None
        mm = re.search(r', !dbg !(\d+)', l)
        if mm:
            v = self.mdget(int(mm.group(1)), 'var')
            if v is not None:
                g.enumty = self.enum_of(self.mdget(v, 'type'))
        self.globals[name] = g

    def parse_fn(self, head, body):
        f = Fn()
        m = re.match(r'define (.*?)@("?)([^"(]*)\2\((.*)$', head)
        pre, name, rest = m.group(1), m.group(3), m.group(4)
        f.name = name
        f.internal = ' internal ' in ' ' + pre or pre.startswith('internal')
        f.tu = self.rel
        f.uname = (self.rel + ':' + name) if f.internal else name
        pw = [w for w in pre.split() if w not in ('internal', 'dso_local', 'hidden', 'weak', 'linkonce_odr', 'default', 'protected')]
        p = P(tokenize(' '.join(pw)), self)
        p.skip_attrs()
        f.rty = p.type()
        mm = re.search(r'!dbg !(\d+)', rest)
        f.dbg = int(mm.group(1)) if mm else None
        # parameters
        toks = tokenize('(' + re.sub(r' !dbg.*$', '', rest).rstrip('{ '))
        p = P(toks, self); p.next()
        f.params = []; f.ptys = []; f.vararg = False
        while not p.eat(')'):
            if p.eat('...'):
                f.vararg = True
                continue
            ty = p.type(); p.skip_attrs()
            f.ptys.append(ty); f.params.append(p.next())
            p.eat(',')
        f.file = self.rel
        f.line = 0
        f.retdi = None; f.paramdi = []
        if f.dbg is not None:
            fi = self.mdget(f.dbg, 'file')
            if fi is not None:
                fn = self.mdget(fi, 'filename'); dr = self.mdget(fi, 'directory')
                full = fn if fn.startswith('/') else os.path.join(dr or '', fn)
                f.file = os.path.relpath(full, REPO)
            f.line = int(self.mdget(f.dbg, 'line') or 0)
            ty = self.mdget(f.dbg, 'type')
            if ty is not None:
                tl = self.mdget(ty, 'types')
                if tl is not None:
                    s = self.md.get(tl, '')
                    ids = re.findall(r'null|!(\d+)', s[1:])
                    ids = re.findall(r'(null|!\d+)', s[2:] if s.startswith('!{') else s)
                    ids = [None if x == 'null' else int(x[1:]) for x in ids]
                    f.retdi = ids[0] if ids else None
                    f.paramdi = ids[1:]
        f.enumret = self.enum_of(f.retdi)
        f.parfn = {p: self.fnret_enum(d) for p, d in zip(f.params, f.paramdi)}
        txt = '\n'.join(SIGSTRIP.sub('', x) for x in [head] + body if 'llvm.dbg.' not in x)
        f.text = txt
        f.blocks = {}
        f.order = []
        f.ninst = 0
        cur = None
        k = 0
        while k < len(body):
            l = body[k]
            k += 1
            if not l:
                continue
            if l[0] != ' ':
                mlab = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                nm = mlab.group(1).strip('"')
                cur = Block(nm)
                f.blocks[nm] = cur
                f.order.append(nm)
                continue
            if 'llvm.dbg.' in l:
                continue
            if l.startswith('  switch'):
                while not body[k - 1].lstrip().startswith(']') and ']' not in l:
                    l += ' ' + body[k].strip()
                    k += 1
                    if l.rstrip().endswith(']') or '], !' in l:
                        break
            if cur is None:
                cur = Block('entry0')
                f.blocks['entry0'] = cur; f.order.append('entry0')
            ins = self.parse_inst(l)
            if ins is None:
                continue
            ins.fn = f
            ins.blk = cur.name
            ins.id = (f.uname, f.ninst)
            f.ninst += 1
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.insts.append(ins)
        self.fns[name] = f
        f.entry = f.order[0]
        # tags: innermost struct field addressed by a pointer operand
        defs = {}
        for b in f.blocks.values():
            for ins in b.insts:
                if ins.res:
                    defs[ins.res] = ins
        for b in f.blocks.values():
            for ins in b.insts:
                if ins.op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
                    ptr = ins.args[0] if ins.op == 'load' else (ins.args[1] if ins.op == 'store' else ins.args[0])
                    ins.tag = self.ptr_tag(ptr, defs)
                elif ins.op == 'getelementptr':
                    ins.tag = self.gep_tag(ins.x, ins.args)
                elif ins.op == 'call':
                    if isinstance(ins.x['callee'], str):
                        d = defs.get(ins.x['callee'])
                        if d is not None and d.op == 'load':
                            ins.tag = self.ptr_tag(d.args[0], defs)
                        elif d is None and f.parfn.get(ins.x['callee']) is not None:
                            ins.x['fnenum'] = f.parfn[ins.x['callee']]
                        if ins.tag is not None and ins.tag in self.fieldfn:
                            ins.x['fnenum'] = self.fieldfn[ins.tag]
                    ins.x['atags'] = [self.ptr_tag(a, defs) if t.k == 'ptr' else None
                                      for a, t in zip(ins.args, ins.x['tys'])]
        f.defs = defs
        analyse_cfg(f)

    def ptr_tag(self, ptr, defs, depth=0):
        if isinstance(ptr, tuple):
            if ptr[0] == 'g':
                g = self.globals.get(ptr[1])
                if g is not None:
                    t = self.gep_tag(g.ty, [0, 0, 0]) if self.resolve(g.ty).k == 'struct' else None
                    if t is not None:
                        return t
                return ('global', ptr[1])
            if ptr[0] == 'cgep':
                return self.gep_tag(ptr[1], ptr[2]) or self.ptr_tag(ptr[2][0], defs)
            return None
        if not isinstance(ptr, str):
            return None
        d = defs.get(ptr)
        if d is None:
            return None
        if d.op == 'getelementptr':
            t = self.gep_tag(d.x, d.args)
            if t is not None:
                return t
            if depth < 6:
                return self.ptr_tag(d.args[0], defs, depth + 1)
            return None
        if d.op == 'call' and isinstance(d.x['callee'], tuple) and d.x['callee'][1].startswith('llvm.threadlocal'):
            return self.ptr_tag(d.args[0], defs, depth + 1)
        return None

    def gep_tag(self, ety, ops):
        """(struct name, field name) of the innermost named-struct field selected"""
        ty = ety
        tag = None
        for o in ops[2:]:
            if ty.k == 'named':
                sn = ty.a
                st = self.types[sn]
                if st.k == 'struct' and isinstance(o, int):
                    if o >= len(st.a):
                        return tag
                    if not sn.startswith('union.') or True:
                        base = re.sub(r'\.\d+$', '', sn)
                        tag = (base.split('.', 1)[1] if '.' in base else base, self.fieldname(sn, o))
                    ty = st.a[o]
                    continue
                ty = st
            if ty.k == 'array':
                ty = ty.a
            elif ty.k == 'struct' and isinstance(o, int):
                ty = ty.a[o]
        return tag

    def parse_inst(self, l):
        line = 0
        m = re.search(r', !dbg !(\d+)', l)
        if m:
            d = self.md.get(int(m.group(1)), '')
            mm = re.search(r'line: (\d+)', d)
            line = int(mm.group(1)) if mm else 0
            l = l[:m.start()]
        l = re.sub(r'(, ![a-z.]+ !\d+)+$', '', l)
        l = re.sub(r' #\d+(?= |$|,)', '', l)
        toks = tokenize(l)
        res = None
        if len(toks) > 1 and toks[1] == '=':
            res = toks[0]
            toks = toks[2:]
        p = P(toks, self)
        op = p.next()
        if op in ('tail', 'notail', 'musttail'):
            op = p.next()
        if op == 'load':
            atomic = p.eat('atomic'); vol = p.eat('volatile')
            ty = p.type(); p.eat(',')
            _, ptr = p.typed()
            order = None
            if atomic:
                order = p.next()
                if order == 'syncscope':
                    p.skip_paren(); order = p.next()
            return Inst('load', res, ty, [ptr], {'atomic': order, 'volatile': vol}, line)
        if op == 'store':
            atomic = p.eat('atomic'); vol = p.eat('volatile')
            vty, v = p.typed(); p.eat(',')
            _, ptr = p.typed()
            order = None
            if atomic:
                order = p.next()
            return Inst('store', None, vty, [v, ptr], {'atomic': order, 'volatile': vol}, line)
        if op == 'getelementptr':
            p.skip_attrs()
            ety = p.type(); p.eat(',')
            ops = []
            while True:
                _, v = p.typed()
                ops.append(v)
                if not p.eat(','):
                    break
            return Inst('getelementptr', res, PTR, ops, ety, line)
        if op == 'alloca':
            p.skip_attrs()
            ty = p.type()
            cnt = 1
            if p.eat(',') and p.peek() != 'align':
                _, cnt = p.typed()
            return Inst('alloca', res, PTR, [cnt], ty, line)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Inst('br', None, None, [], [p.next()[1:].strip('"')], line)
            p.type(); c = p.value(None); p.eat(',')
            p.next(); a = p.next()[1:].strip('"'); p.eat(','); p.next(); b = p.next()[1:].strip('"')
            return Inst('br', None, None, [c], [a, b], line)
        if op == 'switch':
            ty, v = p.typed(); p.eat(','); p.next(); d = p.next()[1:].strip('"')
            p.next()
            cases = []
            while not p.eat(']'):
                ct, cv = p.typed(); p.eat(','); p.next()
                cases.append((cv, p.next()[1:].strip('"')))
            return Inst('switch', None, ty, [v], (d, cases), line)
        if op == 'ret':
            if p.peek() == 'void':
                return Inst('ret', None, VOID, [], None, line)
            ty, v = p.typed()
            return Inst('ret', None, ty, [v], None, line)
        if op == 'unreachable':
            return Inst('unreachable', None, None, [], None, line)
        if op == 'phi':
            ty = p.type()
            inc = []
            while p.eat('['):
                v = p.value(ty); p.eat(',')
                lab = p.next()[1:].strip('"')
                p.eat(']')
                inc.append((lab, v))
                p.eat(',')
            return Inst('phi', res, ty, [v for _, v in inc], inc, line)
        if op == 'icmp' or op == 'fcmp':
            pred = p.next()
            ty, a = p.typed(); p.eat(',')
            b = p.value(ty)
            return Inst(op, res, ty, [a, b], pred, line)
        if op in BINOPS:
            p.skip_attrs()
            fl = ' '.join(toks[:6])
            ty, a = p.typed(); p.eat(',')
            b = p.value(ty)
            return Inst(op, res, ty, [a, b], fl, line)
        if op in CASTS:
            p.skip_attrs()
            ty, a = p.typed()
            to = ty
            if p.eat('to'):
                to = p.type()
            return Inst(op, res, to, [a], ty, line)
        if op == 'select':
            p.skip_attrs()
            _, c = p.typed(); p.eat(','); ty, a = p.typed(); p.eat(','); _, b = p.typed()
            return Inst('select', res, ty, [c, a, b], None, line)
        if op == 'call' or op == 'invoke':
            p.skip_attrs()
            rty = p.type()
            p.skip_attrs()
            callee = p.value(None)
            if callee == ('asm',):
                while p.peek() and p.peek() != '(':
                    p.next()
            args = []; tys = []
            assert p.next() == '('
            while not p.eat(')'):
                ty, v = p.typed()
                args.append(v); tys.append(ty)
                p.eat(',')
            return Inst('call', res, rty, args, {'callee': callee, 'tys': tys}, line)
        if op == 'atomicrmw':
            p.eat('volatile')
            rop = p.next()
            _, ptr = p.typed(); p.eat(','); ty, v = p.typed()
            order = p.next()
            return Inst('atomicrmw', res, ty, [ptr, v], {'rop': rop, 'atomic': order}, line)
        if op == 'cmpxchg':
            p.eat('weak'); p.eat('volatile')
            _, ptr = p.typed(); p.eat(','); ty, a = p.typed(); p.eat(','); _, b = p.typed()
            return Inst('cmpxchg', res, ty, [ptr, a, b], {'atomic': p.next()}, line)
        if op == 'fence':
            return Inst('fence', None, None, [], None, line)
        if op == 'extractvalue':
            ty, a = p.typed(); p.eat(',')
            idx = []
            while p.peek():
                idx.append(int(p.next())); p.eat(',')
            return Inst('extractvalue', res, None, [a], idx, line)
        if op == 'insertvalue':
            ty, a = p.typed(); p.eat(','); ty2, b = p.typed()
            p.eat(',')
            idx = []
            while p.peek():
                idx.append(int(p.next())); p.eat(',')
            return Inst('insertvalue', res, ty, [a, b], idx, line)
        if op == 'va_arg' or op == 'fneg':
            return Inst(op, res, None, [], None, line)
        if op == 'fence':
            return Inst('fence', None, None, [], toks[1], line)
        raise AnalysisError('inst? ' + l)

    def enum_of(self, di):
        """enum (name, values) when the DI type is (a typedef of) an enumeration"""
        d = 0
        while di is not None and d < 10:
            if di in self.enums:
                return self.enums[di]
            s = self.md.get(di, '')
            if s.startswith('!DIDerivedType') and 'pointer_type' not in s:
                di = self.mdget(di, 'baseType')
                d += 1
            else:
                return None
        return None

    def type_name(self, di, depth=0):
        """C-ish name of a DI type"""
        if di is None:
            return 'void'
        if depth > 12:
            return '?'
        s = self.md.get(di, '')
        nm = self.mdget(di, 'name')
        if 'DW_TAG_pointer_type' in s:
            return self.type_name(self.mdget(di, 'baseType'), depth + 1) + '*'
        if 'DW_TAG_const_type' in s or 'DW_TAG_volatile_type' in s:
            return self.type_name(self.mdget(di, 'baseType'), depth + 1)
        if 'DW_TAG_typedef' in s:
            return nm
        if 'DW_TAG_structure_type' in s:
            return 'struct ' + (nm or self.diname.get(di) or '?')
        if 'DISubroutineType' in s:
            return 'fn'
        return nm or '?'

    def deref_type(self, di):
        """strip typedefs; return ('ptr', base) / ('struct', name) / ('other', name)"""
        d = 0
        while di is not None and d < 12:
            s = self.md.get(di, '')
            if 'DW_TAG_pointer_type' in s:
                return ('ptr', self.mdget(di, 'baseType'))
            if 'DW_TAG_typedef' in s or 'DW_TAG_const_type' in s or 'DW_TAG_volatile_type' in s:
                di = self.mdget(di, 'baseType'); d += 1
                continue
            if 'DW_TAG_structure_type' in s:
                return ('struct', self.mdget(di, 'name') or self.diname.get(di))
            return ('other', self.mdget(di, 'name'))
        return ('void', None)

    def md_keep(self):
        pass


def succs_of(ins):
    if ins.op == 'br':
        return ins.x
    if ins.op == 'switch':
        return [ins.x[0]] + [l for _, l in ins.x[1]]
    return []


def analyse_cfg(f):
    for b in f.blocks.values():
        t = b.insts[-1]
        b.succs = list(dict.fromkeys(succs_of(t)))
    for b in f.blocks.values():
        for s in b.succs:
            f.blocks[s].preds.append(b.name)
    # rpo
    seen = set(); post = []
    stack = [(f.entry, iter(f.blocks[f.entry].succs))]
    seen.add(f.entry)
    onstack = {f.entry}
    f.backedges = set()
    while stack:
        n, it = stack[-1]
        for s in it:
            if s in onstack:
                f.backedges.add((n, s))
            if s not in seen:
                seen.add(s); onstack.add(s)
                stack.append((s, iter(f.blocks[s].succs)))
                break
        else:
            stack.pop(); onstack.discard(n); post.append(n)
    for i, n in enumerate(reversed(post)):
        f.blocks[n].rpo = i
    # natural loops
    f.loops = {}
    for (n, h) in f.backedges:
        body = f.loops.setdefault(h, {h})
        st = [n]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(f.blocks[x].preds)
    # RPO such that loop bodies come before exits: order by (topological with loops first)
    # recompute a "loop-aware" order: DFS visiting exits first so they end up later in RPO
    def order_key(b):
        return 0
    seen = {f.entry}; post = []
    def ss(n):
        lo = [body for h, body in f.loops.items() if n in body]
        l = f.blocks[n].succs
        # visit successors that leave more loops first => they get larger rpo
        return sorted(l, key=lambda s: sum(1 for body in lo if s in body))
    stack = [(f.entry, iter(ss(f.entry)))]
    while stack:
        n, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(ss(s))))
                break
        else:
            stack.pop(); post.append(n)
    for i, n in enumerate(reversed(post)):
        f.blocks[n].rpo = i
    # innermost loop
    for h, body in sorted(f.loops.items(), key=lambda kv: -len(kv[1])):
        f.blocks[h].isheader = True
        for n in body:
            f.blocks[n].loop = h
    # liveness
    use = {}; de = {}
    for n, b in f.blocks.items():
        u = set(); d = set()
        for ph in b.phis:
            d.add(ph.res)
        for ins in b.insts:
            for a in operands(ins):
                if a not in d:
                    u.add(a)
            if ins.res:
                d.add(ins.res)
        use[n] = u; de[n] = d
    live = {n: set() for n in f.blocks}
    ch = True
    bl = sorted(f.blocks.values(), key=lambda b: -b.rpo)
    while ch:
        ch = False
        for b in bl:
            out = set()
            for s in b.succs:
                out |= live[s]
                sb = f.blocks[s]
                for ph in sb.phis:
                    out.discard(ph.res)
                for ph in sb.phis:
                    for lab, v in ph.x:
                        if lab == b.name and isinstance(v, str):
                            out.add(v)
            new = use[b.name] | (out - de[b.name])
            for ph in b.phis:
                new.add(ph.res)
            if new != live[b.name]:
                live[b.name] = new; ch = True
    for n, b in f.blocks.items():
        b.livein = frozenset(live[n])


def operands(ins):
    for a in ins.args:
        if isinstance(a, str):
            yield a
    if ins.op == 'call' and isinstance(ins.x['callee'], str):
        yield ins.x['callee']


class Program:
    def __init__(self, config):
        self.config = config
        self.mods = {}
        self.fn = {}       # uname -> Fn
        self.byname = {}   # plain name -> [Fn]
        self.glob = {}     # uname -> (Global, Module)

    def add(self, mod):
        self.mods[mod.rel] = mod
        for f in mod.fns.values():
            self.fn[f.uname] = f
            self.byname.setdefault(f.name, []).append(f)
        for g in mod.globals.values():
            if not g.ext:
                self.glob[g.uname] = (g, mod)

    def resolve_fn(self, mod, name):
        f = mod.fns.get(name)
        if f is not None:
            return f
        return self.fn.get(name)

    def resolve_glob(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and not g.ext:
            return g, mod
        return self.glob.get(name, (None, None))

    def stats(self):
        return {'config': self.config, 'translation_units': len(self.mods), 'functions': len(self.fn),
                'instructions': sum(f.ninst for f in self.fn.values())}


def _load_one(a):
    src, config, outdir = a
    rel, ll, err = compile_tu(src, config, outdir)
    if err:
        return rel, None, err
    try:
        m = Module(ll, rel)
    except AnalysisError as e:
        return rel, None, 'parse: ' + str(e)
    except Exception as e:
        import traceback
        return rel, None, 'parse: ' + traceback.format_exc()
    return rel, m, None


_CACHE = {}


def base_global(f, v, depth=0):
    """name of the global a pointer operand is derived from by constant/GEP chains"""
    while depth < 10:
        depth += 1
        if isinstance(v, tuple):
            if v[0] == 'g':
                return v[1]
            if v[0] == 'cgep':
                v = v[2][0]
                continue
            return None
        if isinstance(v, str):
            d = f.defs.get(v)
            if d is not None and d.op == 'getelementptr':
                v = d.args[0]
                continue
        return None
    return None


def effective_consts(prog):
    """tables of function pointers that nothing in the program ever writes"""
    written = set()
    for f in prog.fn.values():
        mod = prog.mods[f.tu]
        for b in f.blocks.values():
            for ins in b.insts:
                t = None
                if ins.op == 'store':
                    t = base_global(f, ins.args[1])
                elif ins.op in ('atomicrmw', 'cmpxchg'):
                    t = base_global(f, ins.args[0])
                elif ins.op == 'call' and isinstance(ins.x['callee'], tuple) and len(ins.x['callee']) > 1 and \
                        str(ins.x['callee'][1]).startswith(('llvm.mem', 'mem', 'str')) and ins.args:
                    t = base_global(f, ins.args[0])
                if t is not None:
                    g, _ = prog.resolve_glob(mod, t)
                    if g is not None:
                        written.add(g.uname)
    for u, (g, mod) in prog.glob.items():
        if not g.const and u not in written and g.init is not None:
            if g.ty.k == 'named' and g.ty.a.endswith('_ops_t') or g.internal and g.ty.k == 'array' and g.ty.a.k == 'ptr':
                g.const = True


def load(config='full', only=None):
    key = (config, tuple(only) if only else None)
    if key in _CACHE:
        return _CACHE[key]
    outdir = tempfile.mkdtemp(prefix='umfsa-')
    try:
        srcs = sources(config)
        if only:
            srcs = [s for s in srcs if any(o in s for o in only)]
        prog = Program(config)
        with ProcessPoolExecutor(8) as ex:
            for rel, m, err in ex.map(_load_one, [(s, config, outdir) for s in srcs], chunksize=2):
                if err:
                    raise AnalysisError(f'{config}: cannot compile/parse {rel}: {err[:1500]}')
                prog.add(m)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    effective_consts(prog)
    if not prog.fn:
        raise AnalysisError('no functions found in ' + REPO)
    _CACHE[key] = prog
    return prog


if __name__ == '__main__':
    import time
    t = time.time()
    for c in sys.argv[1:] or ['full']:
        p = load(c)
        print(p.stats(), round(time.time() - t, 2))
