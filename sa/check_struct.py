"""C13 operation tables, C24 public interface parity."""
import os
import re
import subprocess
import tempfile

import front
import common
import headers
import roles
import specs
from checks import check, sweep, configs, ENGINE_ASSUME
from check_paths import PATHNOTE
from common import BaseChecker, Violation
from engine import T, mk, known_const, nonnull, assume, add
from front import Type

NOT_SUPPORTED = 'UMF_RESULT_ERROR_NOT_SUPPORTED'


def result_codes():
    """enumerators of umf_result_t as the compiler numbers them"""
    r = headers._c.get('codes')
    if r is None:
        r = headers._c['codes'] = headers.enums()['umf_result_t']
    return r


# ------------------------------------------------------------------- C24
# feature -> sources whose public functions belong to it, per configuration in which it is compiled out
OFF = {
    'full': ('provider/provider_cuda.c', 'pool/pool_jemalloc.c'),
    'nohwloc': ('provider/provider_cuda.c', 'pool/pool_jemalloc.c', 'provider/provider_level_zero.c',
                'provider/provider_os_memory.c', 'provider/provider_devdax_memory.c', 'provider/provider_file_memory.c',
                'memspaces/memspace_numa.c', 'memspaces/memspace_host_all.c', 'memspaces/memspace_highest_capacity.c',
                'memspaces/memspace_highest_bandwidth.c', 'memspaces/memspace_lowest_latency.c'),
}
# public functions of such a source that do not need the feature
ALWAYS = set()


class StubChecker(BaseChecker):
    """a function whose feature is compiled out answers 'not supported' and touches nothing"""

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('stub exits')
        if fn.enumret is not None and 'umf_result' in (fn.enumret[0] or ''):
            want = result_codes()[NOT_SUPPORTED]
            if known_const(st, ret) != want:
                self.bad('stub-result', fn.name, ins, f'{fn.name} is compiled without its feature but does not report "not supported"', st)
        elif fn.rty.k == 'ptr':
            if known_const(st, ret) != 0:
                self.bad('stub-result', fn.name, ins, f'{fn.name} is compiled without its feature but returns a pointer', st)

    def deref(self, eng, st, addr, ins, ctx):
        from engine import root_of, split
        if addr.__class__ is T:
            r = root_of(split(addr)[0])
            if r.__class__ is T and r.k == 'arg':
                self.bad('stub-touches', ins.fn.name, ins, f'{self.root.name} is compiled without its feature but accesses its arguments', st)


def map_symbols(path):
    """(global names, local patterns) of a linker version script"""
    t = open(path).read()
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'#.*', '', t)
    glob, loc = {}, []
    cur = 'global'
    for tok in re.findall(r'[^\s;{}]+|[;{}]', t):
        if tok in ('global:', 'local:'):
            cur = tok[:-1]
        elif tok in ';{}':
            if tok == '{':
                cur = 'global'
        elif re.match(r'^[A-Za-z_*?][\w*?]*$', tok) and not re.match(r'^UMF_\d', tok):
            if cur == 'global':
                glob[tok] = glob.get(tok, 0) + 1
            else:
                loc.append(tok)
    return glob, loc


def def_symbols(path):
    out = {}
    on = False
    for l in open(path):
        l = l.split(';')[0].strip()
        if l == 'EXPORTS':
            on = True
        elif on and l:
            out[l.split()[0]] = 1
    return out


def line_of(path, word):
    for n, l in enumerate(open(path), 1):
        if re.search(r'\b' + re.escape(word) + r'\b', l):
            return n
    return 0


def file_bad(rep, rule, key, rel, line, msg):
    rep.add(Violation(rule, f'{rule}|{key}', rel, line, key, msg))


@check('C24', 'declaration / definition / export-list cross-check over clang ASTs and LLVM IR, with path analysis of the stubs',
       'complete over declarations, definitions and export lists; stub behaviour by following every path')
def c24(rep):
    rep.explanation = (
        'The functions declared in include/umf (clang AST) are compared with the externally visible definitions in the IR of '
        'every build configuration and with the Linux version script and the Windows export list, in both directions; every '
        'public function of a source whose feature is compiled out is followed on all paths and must report "not supported" '
        '(or NULL) without touching its arguments; declared and defined signatures must agree.')
    rep.rules = ['undefined', 'signature', 'not-exported', 'exported-unknown', 'duplicate-export', 'exports-everything',
                 'stub-result', 'stub-touches']
    decl = {}
    for k, n, t, f, d in headers.decls():
        if k == 'FunctionDecl' and n and d.get('storageClass') != 'static' and not d.get('inline'):
            decl.setdefault(n, (t, f))
    rep.need('public functions', len(decl), 100)
    n = 0
    for c in ('full', 'nohwloc'):
        prog = front.load(c)
        byname = {f.name: f for f in prog.fn.values() if not f.internal}
        for name, (t, f) in sorted(decl.items()):
            n += 1
            d = byname.get(name)
            if d is None:
                file_bad(rep, 'undefined', name, f, line_of(os.path.join(front.REPO, f), name),
                         f'{name} is declared in {f} but not defined in the configuration {c}')
                continue
            np = 0 if t.endswith('(void)') else len(split_params(t[t.index('('):]))
            if np != len(d.params):
                rep.add(Violation('signature', f'signature|{name}', d.file, d.line if hasattr(d, 'line') else 0, name,
                                  f'{name} is declared with {np} parameters and defined with {len(d.params)} in configuration {c}'))
        offs = OFF[c]
        stubs = [f for f in prog.fn.values() if f.name in decl and not f.internal and f.name not in ALWAYS
                 and any(f.tu.endswith('src/' + o) or f.tu == 'src/' + o for o in offs)]
        rep.need('stub functions in ' + c, len(stubs), {'full': 7, 'nohwloc': 35}[c])
        res = common.explore(prog, stubs, StubChecker, rep)
        n += sum(r['counts'].get('stub exits', 0) for u, r in res)
    # export lists
    mp = os.path.join(front.REPO, 'src', 'libumf.map')
    glob, loc = map_symbols(mp)
    dp = os.path.join(front.REPO, 'src', 'libumf.def')
    de = def_symbols(dp)
    rep.need('names in libumf.map', len(glob), 100)
    rep.need('names in libumf.def', len(de), 100)
    for what, path, names, extra in (('libumf.map', mp, glob, set()), ('libumf.def', dp, de, {'DllMain'})):
        rel = os.path.relpath(path, front.REPO)
        for name in sorted(decl):
            n += 1
            if name not in names:
                file_bad(rep, 'not-exported', f'{what}:{name}', rel, 1, f'{name} is public ({decl[name][1]}) but missing from {what}')
        for name in sorted(names):
            n += 1
            if name not in decl and name not in extra:
                file_bad(rep, 'exported-unknown', f'{what}:{name}', rel, line_of(path, name), f'{what} exports {name}, which no public header declares')
    if '*' not in loc:
        file_bad(rep, 'exports-everything', 'libumf.map', 'src/libumf.map', 1, 'the version script does not hide the internal symbols')
    # malloc-replacement library
    prog = front.load('proxy')
    pm = os.path.join(front.REPO, 'src', 'proxy_lib', 'proxy_lib.map')
    pg, pl = map_symbols(pm)
    own = {f.name: f for f in prog.fn.values() if f.tu.startswith('src/proxy_lib') and not f.internal}
    rep.need('names in proxy_lib.map', len(pg), 6)
    for name in sorted(pg):
        n += 1
        if name not in own:
            file_bad(rep, 'undefined', 'proxy:' + name, 'src/proxy_lib/proxy_lib.map', line_of(pm, name), f'proxy_lib.map exports {name}, which the library does not define')
    for name in sorted(own):
        if name in specs.HEAP and name not in pg:
            n += 1
            file_bad(rep, 'not-exported', 'proxy:' + name, 'src/proxy_lib/proxy_lib.map', 1, f'the library replaces {name} but does not export it')
    for name in ('malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'malloc_usable_size'):
        n += 1
        if name not in own:
            file_bad(rep, 'undefined', 'proxy:' + name, 'src/proxy_lib/proxy_lib.c', 1, f'the malloc-replacement library does not define {name}')
    if '*' not in pl:
        file_bad(rep, 'exports-everything', 'proxy_lib.map', 'src/proxy_lib/proxy_lib.map', 1, 'the version script does not hide the internal symbols')
    rep.obligations = n
    rep.samples = sorted(decl)[:12]
    rep.assumptions = ['CUDA and jemalloc variants are analysed as stubs only (their headers are not installed)',
                       'macOS exports by default visibility']


def split_params(sig):
    """'(a, b (*)(c, d), e)' -> 3 items (the last parenthesised group of a function type)"""
    depth = 0
    end = len(sig) - 1
    while end >= 0 and sig[end] != ')':
        end -= 1
    out, cur = [], ''
    # the parameter list is the first top-level group
    body = ''
    for ch in sig:
        if ch == '(':
            depth += 1
            if depth == 1:
                continue
        if ch == ')':
            depth -= 1
            if depth == 0:
                break
        body += ch
    depth = 0
    for ch in body:
        if ch in '([':
            depth += 1
        if ch in ')]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


# ------------------------------------------------------------------- C13
PROV = 'umf_memory_provider_ops_t'
EXTT = 'umf_memory_provider_ext_ops_t'
IPCT = 'umf_memory_provider_ipc_ops_t'
POOL = 'umf_memory_pool_ops_t'
MTGT = 'umf_memtarget_ops_t'
OPTIONAL = {(PROV, 'ctl'), (POOL, 'ctl')}
# groups of operations that come together or not at all (as their header says), all optional
GROUPS = {PROV: [{(EXTT, 'allocation_split'), (EXTT, 'allocation_merge')},
                 {(IPCT, 'get_ipc_handle_size'), (IPCT, 'get_ipc_handle'), (IPCT, 'put_ipc_handle'), (IPCT, 'open_ipc_handle'),
                  (IPCT, 'close_ipc_handle')},
                 {(EXTT, 'purge_lazy')}, {(EXTT, 'purge_force')}, {(PROV, 'ctl')}],
          POOL: [{(POOL, 'ctl')}], MTGT: []}
CREATE = {'umfMemoryProviderCreate': PROV, 'umfPoolCreate': POOL}
VERSIONS = {PROV: 'UMF_PROVIDER_OPS_VERSION_CURRENT', POOL: 'UMF_POOL_OPS_VERSION_CURRENT'}


def named(prog, struct):
    for mod in prog.mods.values():
        for n in mod.types:
            t = Type('named', n)
            if roles.sname(t) == struct and mod.resolve(t).k == 'struct':
                return mod, t
    raise front.AnalysisError(f'no type {struct} in {prog.config}')


def struct_leaves(prog, struct):
    c = prog.__dict__.setdefault('_sleaves', {})
    if struct not in c:
        mod, t = named(prog, struct)
        c[struct] = roles.leaves(mod, t)
    return c[struct]


def macro_values(names):
    src = '#include <umf.h>\n#include <umf/memory_pool_ops.h>\n#include <umf/memory_provider_ops.h>\n' + \
        ''.join(f'unsigned v_{n} = {n};\n' for n in names)
    with tempfile.NamedTemporaryFile('w', suffix='.c', delete=False) as t:
        t.write(src)
    try:
        r = subprocess.run([front.LLVM + '/clang', '-w', '-S', '-emit-llvm', '-o', '-', '-I' + os.path.join(front.REPO, 'include'), t.name],
                           capture_output=True, text=True)
    finally:
        os.unlink(t.name)
    if r.returncode:
        raise front.AnalysisError('version macros do not compile: ' + r.stderr[:500])
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'@v_(\w+) = .*global i32 (-?\d+)', r.stdout)}


class CreateChecker(BaseChecker):
    """creation with a table in which some operations are NULL"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.ok = 0
        self.defaults = set()

    def setup(self, eng, f, st, variant):
        struct, null, bad = variant
        args = [mk('arg', p[1:], f.uname) for p in f.params]
        for off, tag, ty in struct_leaves(self.prog, struct):
            if ty.k != 'ptr':
                continue
            if tag in null:
                v = 0
            else:
                v = mk('sym', 'userop', tag[0] + '.' + tag[1])
                assume(st, 'ne', v, 0, 64)
            eng.mstore(st, at(args[0], off), v)
        return args

    def ran_init(self, st, name):
        if name.endswith('.initialize'):
            st.ts[('init',)] = 1

    def slot_ok(self, eng, st, name, a, o, ins, ctx):
        self.ran_init(st, name)

    def failed(self, eng, st, name, ins, ctx, r=None):
        self.ran_init(st, name)
        return None

    def root_exit(self, eng, st, fn, ret, ins):
        struct, null, bad = self.variant
        self.count('creation exits')
        c = known_const(st, ret)
        names = '+'.join(sorted(m for _, m in null))
        if bad:
            if c == 0:
                self.bad('incomplete-accepted', f'{fn.name}|{names}', ins, f'{fn.name} accepts a table without {names}', st)
            elif ('init',) in st.ts:
                self.bad('incomplete-initialised', f'{fn.name}|{names}', ins,
                         f'{fn.name} runs the initialize operation of a table without {names}', st)
            return
        if c != 0:
            return
        self.count('successful creations')
        self.ok += 1
        obj = eng.mload(st, eng.root_args[OUT[fn.name][0]])
        base = OUT[fn.name][1]
        if obj.__class__ is not T:
            return
        for off, tag, ty in struct_leaves(self.prog, base):
            if ty.k != 'ptr' or tag[0] not in (PROV, EXTT, IPCT, POOL):
                continue
            v = eng.mload(st, at(obj, off))
            self.count('slots of new objects')
            if known_const(st, v) == 0:
                self.bad('null-slot', f'{fn.name}|{tag[0]}.{tag[1]}', ins,
                         f'{fn.name} succeeds and leaves the operation {tag[1]} of the new object NULL; using it jumps to NULL', st)
            elif tag in null:
                if v.__class__ is T and v.k == 'f':
                    self.defaults.add((v.a[0], tag[1]))
            elif v is not mk('sym', 'userop', tag[0] + '.' + tag[1]):
                self.bad('slot-mixed', f'{fn.name}|{tag[0]}.{tag[1]}', ins,
                         f'{fn.name} does not put the operation {tag[1]} of the table in its place in the new object', st)

    def result(self):
        return {'counts': self.counts, 'ok': self.ok, 'defaults': self.defaults, 'root': self.root.name, 'variant': self.variant}


# creating function -> (output parameter, type of the created object)
OUT = {'umfMemoryProviderCreate': (2, 'umf_memory_provider_t'), 'umfPoolCreate': (4, 'umf_memory_pool_t')}


def at(t, off):
    return add(t, off) if off else t


class DefaultChecker(BaseChecker):
    """what stands in for an operation the table lacks"""

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('default operation exits')
        if known_const(st, ret) != result_codes()[NOT_SUPPORTED]:
            self.bad('default-result', fn.name, ins, f'{fn.name} stands in for an operation the table lacks but does not report "not supported"', st)


class OpsGetter(BaseChecker):
    """the function that hands out a shipped table"""

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('table getters')
        if not (ret.__class__ is T and ret.k == 'g') and known_const(st, ret) != 0:
            self.bad('ops-getter', fn.name, ins, f'{fn.name} returns something that is not one of the shipped tables', st)
        elif ret.__class__ is T:
            self.tables.add(ret.a[0])

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.tables = set()

    def result(self):
        return {'counts': self.counts, 'tables': self.tables}


def variants(prog):
    """(function, (struct, NULL operations, must be rejected))"""
    out = []
    for name, struct in CREATE.items():
        f = prog.byname[name][0]
        allslots = {tag for off, tag, ty in struct_leaves(prog, struct) if ty.k == 'ptr'}
        opt = set().union(*GROUPS[struct]) & allslots
        for tag in sorted(allslots - opt):
            out.append((f, (struct, frozenset([tag]), True)))
        for g in GROUPS[struct]:
            g = g & allslots
            out.append((f, (struct, frozenset(g), False)))
            if len(g) > 1:
                for tag in sorted(g):
                    out.append((f, (struct, frozenset([tag]), True)))
                    out.append((f, (struct, frozenset(g - {tag}), True)))
        out.append((f, (struct, frozenset(opt), False)))
        out.append((f, (struct, frozenset(), False)))
    return out


@check('C13', 'operation-table extraction from LLVM IR plus path-sensitive dataflow of table members through creation', PATHNOTE)
def c13(rep):
    rep.explanation = (
        'Every constant operations table of the library (IR initialisers, all configurations) must have every mandatory '
        'operation, complete groups and the current version. umfMemoryProviderCreate and umfPoolCreate are followed with a '
        'symbolic user table once per mandatory operation set to NULL and once per incomplete group: no path may succeed or '
        'run the initialize operation; with optional operations NULL every successful path must leave each slot of the new '
        'object filled, by the right operation or by a default that reports "not supported" on all its paths.')
    rep.rules = ['table-incomplete', 'table-version', 'table-group', 'ops-getter', 'incomplete-accepted', 'incomplete-initialised',
                 'null-slot', 'slot-mixed', 'default-result']
    rep.assumptions = ENGINE_ASSUME
    ver = macro_values(list(VERSIONS.values()))
    n = 0
    for c in ('full', 'nohwloc'):
        prog = front.load(c)
        nt = 0
        for g, mod, d in roles.tables(prog):
            s = roles.sname(g.ty)
            if s not in (PROV, POOL, MTGT):
                continue
            nt += 1
            rel = mod.rel
            opt = set().union(*GROUPS[s]) if GROUPS[s] else set()
            null = set()
            for off, (tag, v) in d.items():
                n += 1
                if tag == (s, 'version'):
                    want = ver.get(VERSIONS.get(s))
                    if want is not None and v != want:
                        rep.add(Violation('table-version', f'table-version|{g.name}', rel, 0, g.name,
                                          f'the table {g.name} has version {v}, the current one is {want}'))
                elif v in (0, None):
                    null.add(tag)
            fp = {tag for off, tag, ty in struct_leaves(prog, s) if ty.k == 'ptr'}
            for tag in sorted((null & fp) - opt):
                rep.add(Violation('table-incomplete', f'table-incomplete|{g.name}.{tag[1]}', rel, 0, g.name,
                                  f'the shipped table {g.name} lacks the mandatory operation {tag[1]}'))
            for grp in GROUPS[s]:
                miss = grp & null
                if miss and miss != grp & fp:
                    rep.add(Violation('table-group', f'table-group|{g.name}', rel, 0, g.name,
                                      f'the shipped table {g.name} has only part of a group: {sorted(m for _, m in miss)} missing'))
        rep.need('tables in ' + c, nt, {'full': 10, 'nohwloc': 5}[c])
        getters = [f for f in prog.fn.values() if f.name in common.public_names(prog) and f.rty.k == 'ptr' and not f.params
                   and f.name.endswith('Ops')]
        got = set()
        for u, r in common.explore(prog, getters, OpsGetter, rep):
            got |= r['tables']
        rep.need('tables handed out in ' + c, len(got), {'full': 8, 'nohwloc': 3}[c])
        vs = variants(prog)
        defaults = set()
        for u, r in common.explore(prog, vs, CreateChecker, rep):
            n += r['counts'].get('creation exits', 0) + r['counts'].get('slots of new objects', 0)
            defaults |= r['defaults'] or set()
            if not r['variant'][2] and not r['ok']:
                rep.errors.append(f'{r["root"]}: no successful path with {sorted(r["variant"][1])} missing')
        fs = [(prog.fn[u], None) for u, m in sorted(defaults)]
        rep.need('defaults of optional operations in ' + c, len(fs), 6)
        for u, r in common.explore(prog, [f for f, _ in fs], DefaultChecker, rep):
            n += r['counts'].get('default operation exits', 0)
    rep.obligations = n
