"""Shared driver: roots, parallel exploration, reports, known findings, evidence."""
import json
import os
import re
import sys
import time
import multiprocessing as mp

import front
import engine
import specs
from front import AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Violation:
    def __init__(self, rule, key, file, line, func, msg, trace=(), entry=''):
        self.rule = rule
        self.key = key            # stable identity: no line numbers
        self.file = file
        self.line = line
        self.func = func
        self.msg = msg
        self.trace = list(trace)
        self.entry = entry

    def text(self):
        return f'{self.file}:{self.line}: [{self.rule}] in {self.func}' + \
            (f' (entry {self.entry})' if self.entry and self.entry != self.func else '') + f': {self.msg}'


def vio(rule, key, ins, msg, trace=(), entry=''):
    f = ins.fn
    return Violation(rule, key, f.file, ins.line, f.name, msg, trace, entry)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.vios = {}
        self.stats = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.errors = []
        self.obligations = 0
        self.discharged = 0

    def add(self, v):
        o = self.vios.get(v.key)
        if o is None or len(v.trace) < len(o.trace):
            self.vios[v.key] = v

    def merge_stats(self, d):
        for k, v in d.items():
            if isinstance(v, int):
                self.stats[k] = self.stats.get(k, 0) + v
            elif isinstance(v, dict):
                o = self.stats.setdefault(k, {})
                for a, b in v.items():
                    o[a] = o.get(a, 0) + b
            elif isinstance(v, (set, frozenset)):
                self.stats.setdefault(k, set()).update(v)

    def need(self, what, n, least):
        """an instance count that must not collapse"""
        self.stats['instances:' + what] = n
        if n < least:
            self.errors.append(f'only {n} instances of "{what}" found (at least {least} expected): analysis broken')


# ------------------------------------------------------------------- roots
_pub = {}


def public_names(prog):
    """functions declared in the public headers, per the compiler"""
    r = _pub.get('p')
    if r is None:
        import headers
        r = _pub['p'] = set(headers.declared())
    return r


def address_taken(prog):
    out = set()
    for mod in prog.mods.values():
        def walk(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'g' and isinstance(v[1], str):
                    f = mod.fns.get(v[1]) or prog.fn.get(v[1])
                    if f is not None:
                        out.add(f.uname)
                else:
                    for x in v:
                        walk(x)
            elif isinstance(v, list):
                for x in v:
                    walk(x)
        for g in mod.globals.values():
            if not g.ext:
                walk(g.init)
        for f in mod.fns.values():
            for b in f.blocks.values():
                for ins in b.insts:
                    for a in ins.args:
                        walk(a)
                for ins in b.phis:
                    for a in ins.args:
                        walk(a)
    return out


def direct_callers(prog):
    """callee uname -> set of caller unames"""
    out = {}
    for f in prog.fn.values():
        mod = prog.mods[f.tu]
        for b in f.blocks.values():
            for ins in b.insts:
                if ins.op == 'call' and isinstance(ins.x['callee'], tuple) and ins.x['callee'][0] == 'g':
                    t = prog.resolve_fn(mod, ins.x['callee'][1])
                    if t is not None:
                        out.setdefault(t.uname, set()).add(f.uname)
    return out


SKIP_ROOTS = {'utils_log', 'utils_plog', 'utils_log_internal'}


def roots(prog, tus=None, statics=False):
    """entry points: everything that can be called from outside its module"""
    at = address_taken(prog)
    out = []
    for f in prog.fn.values():
        if f.name in SKIP_ROOTS:
            continue
        if f.tu.endswith('utils_log.c'):
            continue
        if not f.internal or f.uname in at or statics:
            if tus is None or any(t in f.tu for t in tus):
                out.append(f)
    return out


def entry_roots(prog):
    """entry points whose callers are outside the library: public API, ops tables, callbacks"""
    at = address_taken(prog)
    pub = public_names(prog)
    return [f for f in roots(prog) if f.name in pub or f.uname in at or f.tu.startswith('src/proxy_lib')]


# ---------------------------------------------------------- parallel driver
_G = {}


def _work(i):
    mkchecker, prog, rs, opts = _G['mk'], _G['prog'], _G['roots'], _G['opts']
    f, variant = rs[i]
    t = time.time()
    vios = {}
    steps = 0
    # an entry point too large for the step budget is followed again with fewer states per program point,
    # so that its exits are always reached
    for n, cap in enumerate((None, 40, 16, 8)):
        o = dict(opts)
        if cap is not None:
            o['maxstates'] = min(cap, o['maxstates'])
        engine.reset_terms()
        ck = mkchecker(prog, f, variant)
        eng = engine.Engine(prog, ck, specs.SPECS, specs.SLOTS, **o)
        if cap is not None:
            eng.latecap = min(eng.latecap, cap)
            eng.joinlimit, eng.joinlimit2 = min(eng.joinlimit, cap // 2), min(eng.joinlimit2, cap)
        ck.eng = eng
        bud = False
        try:
            st = engine.State()
            args = ck.setup(eng, f, st, variant) if hasattr(ck, 'setup') else None
            eng.run_root(f, args, st)
        except engine.Budget:
            bud = True
        if hasattr(ck, 'finish'):
            ck.finish(eng, f, bud)
        for k, v in getattr(ck, 'vios', {}).items():
            if k not in vios:
                vios[k] = v
        steps += eng.steps
        if not bud:
            break
    res = ck.result() if hasattr(ck, 'result') else {}
    eng.stat['narrowed_roots'] = 1 if n else 0
    return (f.uname, time.time() - t, bud, eng.stat, steps, sorted(eng.covered), res,
            [v.__dict__ for v in vios.values()], dict(eng.opaque_names))


def explore(prog, rs, mkchecker, rep, **opts):
    """run the engine over every root (list of Fn or (Fn, variant)); returns the checkers' results"""
    rs = [r if isinstance(r, tuple) else (r, None) for r in rs]
    o = dict(unroll=1, maxstates=100, maxsteps=700_000)
    if rep.tier == 'thorough':
        o = dict(unroll=2, maxstates=300, maxsteps=3_000_000)
    o.update(opts)
    # big functions first
    rs.sort(key=lambda x: -sum(x[0].ninst for _ in (0,)))
    _G.update(mk=mkchecker, prog=prog, roots=rs, opts=o)
    out = []
    cov = set()
    ctx = mp.get_context('fork')
    slow = []
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        for u, dt, bud, stat, steps, covered, res, vs, opaque in pool.imap_unordered(_work, range(len(rs)), chunksize=1):
            out.append((u, res))
            cov.update(covered)
            stat = dict(stat)
            stat['steps'] = steps
            stat['budget_hits'] = 1 if bud else 0
            rep.merge_stats(stat)
            if bud:
                rep.stats.setdefault('budget_roots', set()).add(u)
            slow.append((round(dt, 1), u))
            for d in vs:
                v = Violation.__new__(Violation)
                v.__dict__.update(d)
                rep.add(v)
    slow.sort(reverse=True)
    rep.stats.setdefault('slowest', [])
    rep.stats['slowest'] = (rep.stats['slowest'] + [f'{t}s {u}' for t, u in slow[:5]])[:10]
    rep.stats.setdefault('functions_covered', set()).update(prog.config + ':' + c for c in cov)
    out.sort(key=lambda x: x[0])
    return out


class BaseChecker(engine.Checker):
    """collects violations"""

    def __init__(self, prog, root, variant=None):
        self.prog = prog
        self.root = root
        self.variant = variant
        self.vios = {}
        self.counts = {}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, rule, key, ins, msg, st=None):
        k = rule + '|' + key
        tr = st.tracelist() if st is not None else ()
        o = self.vios.get(k)
        if o is None or len(tr) < len(o.trace):
            self.vios[k] = vio(rule, k, ins, msg, tr, self.root.name)

    def result(self):
        return {'counts': self.counts}


# ------------------------------------------------------------ known findings
def load_known():
    """lines:  known: property=<id> key=<key> -- text      fixed: property=<id> <commit> <text>"""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for l in open(KNOWN):
        l = l.strip()
        m = re.match(r'known: property=(\S+) key=(\S+) -- (.*)$', l)
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def jsonable(x):
    if isinstance(x, (set, frozenset)):
        return sorted(jsonable(y) for y in x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    return x


def finish(rep, t0):
    prop = rep.prop
    known = load_known().get(prop, {})
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    new = []
    seen_known = []
    for k in sorted(rep.vios):
        v = rep.vios[k]
        kk = k.replace(' ', '_')
        if kk in known:
            seen_known.append(kk)
            print(f'KNOWN-FINDING: property={prop} {v.text()} [{kk}] -- {known[kk]}')
        else:
            new.append((kk, v))
    cov = {'explanation': rep.explanation, 'rules': rep.rules, 'obligations': rep.obligations,
           'discharged': rep.obligations - len(rep.vios) if rep.obligations else 0,
           'samples': rep.samples[:12], 'analysis': jsonable({k: (len(v) if k == 'functions_covered' else v)
                                                            for k, v in rep.stats.items()})}
    ev = {'property': prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov, 'assumptions': rep.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    cov['known_findings'] = seen_known
    cov['reported'] = [{'key': k, 'text': v.text()} for k, v in new]
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if rep.errors:
        for e in rep.errors:
            print('ANALYSIS-ERROR:', e)
        if not new:
            return 3
    i = 0
    for kk, v in new:
        i += 1
        p = os.path.join(rdir, f'{prop}-{i}.txt')
        with open(p, 'w') as f:
            f.write(f'property {prop}\nrule {v.rule}\nkey {kk}\n{v.text()}\nentry: {v.entry}\npath:\n')
            for s in v.trace:
                f.write('  ' + str(s) + '\n')
        print(v.text())
        print(f'VIOLATION property={prop} replay={p} key={kk}')
    if new:
        return 1
    print(f'{prop}: held; {rep.obligations} obligations, {len(seen_known)} known findings, {time.time() - t0:.1f} s')
    return 0
