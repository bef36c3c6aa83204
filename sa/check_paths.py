"""C01, C04, C06, C07: lock balance and resource typestate along every path."""
import front
import common
import checks
import specs
from common import Violation
from checks import check, sweep, configs, ENGINE_ASSUME
from engine import T, known_const
from locks import LockChecker
from resources import ResChecker

PATHNOTE = ('abstract interpretation with inlining over every entry point, both outcomes of every modelled call; loops are '
            'unrolled a bounded number of times and state sets capped, so absence of reports is strong evidence, not proof')

PRIMS_TU = 'utils_posix_concurrency.c'


class PrimChecker(LockChecker):
    """the wrappers every other rule relies on: take/release exactly the lock they are given"""
    WANT = {'utils_mutex_lock': {'lock'}, 'utils_read_lock': {'rdlock'}, 'utils_write_lock': {'wrlock'},
            'utils_mutex_unlock': set(), 'utils_read_unlock': set(), 'utils_write_unlock': set()}

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.rel = {}

    def lockop(self, eng, st, op, addr, ins, ctx):
        from engine import split, root_of
        key = 'n'
        st.ts[(key, op, root_of(split(addr)[0]) if isinstance(addr, T) else addr)] = 1
        return None

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('primitive exits')
        want = {'utils_mutex_lock': ('lock',), 'utils_read_lock': ('rdlock',), 'utils_write_lock': ('wrlock',),
                'utils_mutex_unlock': ('unlock',), 'utils_read_unlock': ('rwunlock',),
                'utils_write_unlock': ('rwunlock',)}[fn.name]
        c = known_const(st, ret) if ret is not None else 0
        ops = [(k[1], k[2]) for k in st.ts if k[0] == 'n']
        if c == 0:
            if [o for o, _ in ops] != list(want) or ops[0][1] is not eng.root_args[0]:
                self.bad('primitive', fn.name, ins, f'{fn.name} reports success without having performed exactly '
                         f'{want[0]} on the lock it was given (performed: {[o for o, _ in ops]})', st)
        elif any(o in ('lock', 'rdlock', 'wrlock') for o, _ in ops):
            self.bad('primitive-fail', fn.name, ins, f'{fn.name} reports failure while the lock stays taken', st)


def lock_sweep(rep):
    return sweep(rep, LockChecker, configs(rep, release=True), skip=(PRIMS_TU, 'utils_windows'))


@check('C01', 'path-sensitive lock typestate dataflow over LLVM IR', PATHNOTE)
def c01(rep):
    rep.explanation = (
        'Path-sensitive lock-balance dataflow over LLVM IR of the current sources: from every entry point (public API, '
        'operation-table functions, callbacks, proxy library, modelled internal interfaces) all paths including the failure '
        'outcome of every modelled call are followed; the set of locks held is the automaton state.')
    rep.rules = ['double-lock', 'unlock-not-held', 'unlock-kind', 'destroy-held', 'free-held', 'held-at-exit', 'primitive']
    rep.assumptions = ENGINE_ASSUME + ['a failing pthread lock call leaves the lock free']
    res = lock_sweep(rep)
    acq = {}
    for c, u, r in res:
        for k, v in r['acq'].items():
            acq['.'.join(k)] = acq.get('.'.join(k), 0) + v
    prog = front.load('full')
    prims = [f for f in prog.fn.values() if f.name in PrimChecker.WANT]
    rep.need('lock primitives', len(prims), 6)
    common.explore(prog, prims, PrimChecker, rep)
    rep.stats['lock_classes'] = acq
    rep.need('lock classes', len(acq), 9)
    rep.need('lock acquisitions followed', sum(acq.values()), 40)
    ev = rep.stats['events']
    rep.obligations = ev.get('exits', 0) + ev.get('lock', 0) + ev.get('unlock', 0) + ev.get('wrlock', 0)
    rep.samples = [f'{k}: {v} acquisitions' for k, v in sorted(acq.items())]


def res_sweep(rep, release=False):
    return sweep(rep, ResChecker, configs(rep, release=release))


def res_check(rep, rules, what, release=False):
    res = res_sweep(rep, release)
    ev = rep.stats['events']
    rep.need('acquisitions followed', ev.get('acquire', 0), 2000)
    rep.need('releases followed', ev.get('release', 0), 2000)
    rep.vios = {k: v for k, v in rep.vios.items() if v.rule in rules}
    rep.obligations = ev.get(what, 0)
    rep.rules = list(rules)
    rep.assumptions = ENGINE_ASSUME
    return res


@check('C04', 'path-sensitive ownership typestate (leak) dataflow over LLVM IR', PATHNOTE)
def c04(rep):
    rep.explanation = (
        'Ownership typestate over every path of every entry point: each acquired resource (internal memory, mapping, '
        'descriptor, library, lock, tree, sub-object, upstream allocation) must at exit have been released, handed over, or '
        'be reachable from a surviving object or the result.')
    res_check(rep, ('leak', 'lock-leak'), 'exits')


@check('C06', 'path-sensitive release typestate (use after release, double release) over LLVM IR', PATHNOTE)
def c06(rep):
    rep.explanation = (
        'Typestate over every path: after a release no access, no use as an argument of a modelled interface, no second release.')
    res_check(rep, ('double-release', 'use-after-release', 'dangling-output', 'dangling-member'), 'release', True)


@check('C07', 'allocator-family typestate plus call-graph reachability of the C heap', PATHNOTE)
def c07(rep):
    rep.explanation = (
        'Each internal allocation is tracked with the allocator family (and instance) that made it to the operation that '
        'releases it; additionally the call graph of the library must not reach the C heap.')
    res_check(rep, ('release-family', 'release-owner'), 'release', True)
    n = 0
    for c in configs(rep, release=True):
        n += heap_calls(rep, front.load(c))
    rep.need('references to functions outside the library', n, 300)
    rep.rules.append('heap')
    rep.obligations += n


def refs(ins):
    """names of globals an instruction mentions, callee included"""
    out = []

    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == 'g' and isinstance(v[1], str):
                out.append(v[1])
            else:
                for x in v:
                    walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk(ins.args)
    if ins.op == 'call':
        walk(ins.x['callee'])
    return out


def heap_calls(rep, prog):
    """no code of the library calls, or takes the address of, a function that uses the C heap for its caller"""
    n = 0
    for f in prog.fn.values():
        mod = prog.mods[f.tu]
        inproxy = f.tu.startswith('src/proxy_lib')
        for b in f.blocks.values():
            for ins in list(b.phis) + list(b.insts):
                for nm in refs(ins):
                    t = prog.resolve_fn(mod, nm)
                    if t is None:
                        n += 1
                    if nm in specs.HEAP and not (inproxy and t is not None):
                        rep.add(common.vio('heap', f'heap|{f.name}:{nm}', ins,
                                           f'{f.name} uses {nm}, which takes its memory from the C heap'))
    for mod in prog.mods.values():
        for g in mod.globals.values():
            if g.ext or mod.rel.startswith('src/proxy_lib'):
                continue
            names = []

            def walk(v):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == 'g' and isinstance(v[1], str):
                        names.append(v[1])
                    else:
                        for x in v:
                            walk(x)
                elif isinstance(v, list):
                    for x in v:
                        walk(x)
            walk(g.init)
            for nm in names:
                if nm in specs.HEAP and prog.resolve_fn(mod, nm) is None:
                    rep.add(Violation('heap', f'heap|{g.name}:{nm}', mod.rel, 0, g.name,
                                      f'the table {g.name} refers to {nm}, which uses the C heap'))
    return n
