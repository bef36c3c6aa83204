"""C08 failures surface, C09 NULL arguments, C10 outputs, C11 result codes."""
import front
import common
import specs
from checks import check, sweep, configs, ENGINE_ASSUME, module_roots
from check_paths import PATHNOTE
from common import BaseChecker
from engine import T, mk, split, root_of, subterms, known_const, nonnull, Inter
from fails import SurfaceChecker, TOLERATED, status_of


@check('C08', 'path-sensitive failure-propagation dataflow over LLVM IR', PATHNOTE)
def c08(rep):
    rep.explanation = (
        'Every modelled lower-layer call (and every inlined internal function that reports a status) is followed on its '
        'failing outcome; an entry point that then still reaches a success exit has swallowed the failure. Documented '
        'fallbacks are listed one by one (entry point, failing step, reason) in sa/fails.py.')
    rep.rules = ['swallowed-failure']
    rep.assumptions = ENGINE_ASSUME + ['the documented fallbacks listed in sa/fails.py:TOLERATED are intended']
    sweep(rep, SurfaceChecker, configs(rep))
    ev = rep.stats['events']
    rep.need('failing outcomes followed', ev.get('failed steps', 0), 1500)
    rep.need('failed inner calls followed', ev.get('failed inner calls', 0), 300)
    rep.need('success exits judged', ev.get('success exits', 0), 300)
    rep.obligations = ev.get('exits', 0)
    rep.samples = [f'{a} / {b}: {r if isinstance(r, str) else r[0]}' for (a, b), r in sorted(TOLERATED.items())]


# ------------------------------------------------------------------- C11
class CodeChecker(BaseChecker):
    """every value returned as a status is an enumerator"""

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        name, vals = fn.enumret
        ok = set(vals.values())
        c = known_const(st, ret) if ret is not None else None
        if c is not None:
            if c not in ok:
                self.bad('not-a-result-code', fn.name, ins, f'{fn.name} returns {c}, which is no {name}', st)
            return
        why = self.foreign(eng, st, ret)
        if why:
            self.bad('foreign-code', f'{fn.name}|{why}', ins, f'{fn.name} returns {why} as its {name}', st)

    def foreign(self, eng, st, v):
        """None if the value comes from something that itself returns result codes"""
        if v is None or v.__class__ is int:
            return None
        if any(x.k == 'sym' and x.a[0] == 'join' for x in subterms(v, set())):
            return None
        if v.k == 'cast':
            return 'a value converted from another integer type'
        if v.k == 'sym':
            n = v.a[0]
            if n.startswith('fail:'):
                n = n[5:]
                if n == 'errno':
                    return None
            return self.byname(n, v)
        if v.k == 'ld':
            return None if v in self.typed else 'a value read from memory that is not a result code'
        if v.k in ('undef', 'uninit'):
            return 'an uninitialised value'
        if v.k in ('op', 'lin', 'cmp', 'not'):
            return 'a computed value'
        return None

    def enumcell(self, addr, ins):
        """the declared enumeration of the memory cell, if any"""
        b, off = split(addr)
        if b.__class__ is T and b.k == 'g':
            gm = self.prog.glob.get(b.a[0])
            if gm is not None and gm[0].enumty is not None:
                return gm[0].enumty
        if ins.tag is not None:
            return self.prog.mods[ins.fn.tu].fieldenum.get(ins.tag)
        return None

    def load(self, eng, st, addr, val, ins, ctx):
        if val.__class__ is T and val.k == 'ld':
            e = self.enumcell(addr, ins)
            if e is not None and 'umf_result' in (e[0] or ''):
                self.typed.add(val)

    def store(self, eng, st, addr, v, ins, ctx):
        # cells of the result type may only receive result codes, so loading one is fine
        if addr.__class__ is not T:
            return
        e = self.enumcell(addr, ins)
        if e is None or 'umf_result' not in (e[0] or ''):
            return
        self.count('stores to status cells')
        c = known_const(st, v)
        why = None
        if c is not None:
            if c not in set(e[1].values()):
                why = str(c)
        else:
            why = self.foreign(eng, st, v)
        if why:
            self.bad('foreign-code-stored', f'{ins.fn.name}|{why}', ins, f'{why} is stored where a {e[0]} is kept', st)

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.typed = set()

    def byname(self, n, v):
        if n.startswith('slot:') or n == '?':
            ins = self.sites.get(v.a[1])
            e = ins.x.get('fnenum') if ins is not None else None
            return None if e is not None and 'umf_result' in (e[0] or '') else f'the status of the foreign function {n[5:]}'
        f = [x for x in self.prog.fn.values() if x.name == n]
        if f and all(x.enumret is not None and 'umf_result' in (x.enumret[0] or '') for x in f):
            return None
        return f'the result of {n}, which is no result code'

    @property
    def sites(self):
        s = self.prog.__dict__.get('_icallsites')
        if s is None:
            s = self.prog._icallsites = {i.id: i for f in self.prog.fn.values() for b in f.blocks.values() for i in b.insts
                                         if i.op == 'call'}
        return s


def status_roots(prog):
    return [f for f in module_roots(prog) if f.enumret is not None and 'umf_result' in (f.enumret[0] or '')]


@check('C11', 'path-sensitive provenance dataflow of returned status values over LLVM IR', PATHNOTE)
def c11(rep):
    rep.explanation = (
        'For every function whose declared result is the public result enumeration, each value that can reach a return is '
        'either an enumerator, or the unmodified status of a function or operation that is itself declared to return the '
        'enumeration (or the errno translator); anything else (negative numbers, errno values, driver codes, uninitialised '
        'or computed values) is reported with the path.')
    rep.rules = ['not-a-result-code', 'foreign-code', 'foreign-code-stored']
    rep.assumptions = ENGINE_ASSUME + ['operation tables supplied by users return result codes, as their type says']
    sweep(rep, CodeChecker, configs(rep), rootsel=status_roots)
    ev = rep.stats['events']
    rep.need('status returns judged', ev.get('exits', 0), 1000)
    rep.obligations = ev.get('exits', 0)


# ------------------------------------------------------------------- C10
@check('C10', 'path-sensitive definite-assignment dataflow over LLVM IR', PATHNOTE)
def c10(rep):
    import outs
    from common import Violation
    rep.explanation = (
        'At every success exit of every function with output parameters (public interface, operation tables, internal '
        'interfaces the models rely on) the cell behind each output must have been written, must not hold an uninitialised '
        'value and, for created handles, must not be NULL; every load of memory made by the call itself (stack or fresh heap) '
        'must be of a cell that was stored; every member of a surviving new object that any code of the library reads must '
        'have been set when the creating call succeeds.')
    rep.rules = ['output-missing', 'output-uninit', 'output-null', 'uninit-read', 'unset-member']
    rep.assumptions = ENGINE_ASSUME
    res = sweep(rep, outs.OutChecker, configs(rep))
    reads = set()
    unset = {}
    for c, u, r in res:
        reads |= set(r['reads'])
        unset.update(r['unset'])
    for (s, tag), (fn, file, line) in sorted(unset.items(), key=str):
        if tag in reads and (s, tag[1]) not in outs.UNSET_OK:
            rep.add(Violation('unset-member', f'unset-member|{s}.{tag[1]}|{fn}', file, line, fn,
                              f'{fn} succeeds with a new {s} whose member {tag[1]} was never set although the library reads it'))
    ev = rep.stats['events']
    rep.need('outputs judged', ev.get('outputs judged', 0), 300)
    rep.need('loads followed', ev.get('loads', 0), 100000)
    rep.obligations = ev.get('outputs judged', 0) + ev.get('loads', 0)
    rep.samples = [f'{f}: parameters {[k for k, _ in o]}' for f, o in sorted(outs.PUBLIC.items()) if o]


# ------------------------------------------------------------------- C09
@check('C09', 'path-sensitive NULL-argument dataflow over LLVM IR against a reviewed table of mandatory arguments', PATHNOTE)
def c09(rep):
    import nullargs
    from common import Violation
    rep.explanation = (
        'Every public function, operation-table function and argument-checking internal interface is followed once per '
        'pointer parameter with that parameter NULL. The outcome on every path must be the class recorded for the parameter '
        'in sa/nullargs.json (rejected with an invalid-argument code / NULL / no effect, or accepted); on no path may the '
        'NULL be dereferenced or an abort reached, and a rejecting path may not have stored through the other arguments.')
    rep.rules = ['null-deref', 'null-assert', 'null-effect', 'null-outcome']
    rep.assumptions = ENGINE_ASSUME
    t = nullargs.table()
    res = sweep(rep, nullargs.NullChecker, ['full', 'nohwloc'], rootsel=nullargs.null_roots, maxsteps=200_000)
    found = set()
    for c, u, r in res:
        k = '%s|%d' % r['root']
        if k not in t:
            continue
        found.add(k)
        rep.obligations += 1
        fn, par = r['root']
        for o in nullargs.judge(t[k], r['out']):
            file, line, func, tr = r['out'][o]
            what = nullargs.WHAT.get(o) or f'leads to the outcome {o}, not {"/".join(t[k])}'
            rule = 'null-' + (o if o in nullargs.CRASH else 'outcome')
            rep.add(Violation(rule, f'{rule}|{k}|{o}', file, line, func, f'parameter {par} of {fn} being NULL {what}', tr, fn))
    rep.need('mandatory arguments followed', len(found), len(t) * 9 // 10)
    rep.samples = [f'{k}: {v}' for k, v in list(t.items())[::25]]
