"""C09: what happens when one pointer argument is NULL."""
import json
import os
from engine import T, mk, split, root_of, known_const, nonnull
from common import BaseChecker, public_names
from fails import status_of
import roles

OPS = {'umf_memory_provider_ops_t', 'umf_memory_provider_ext_ops_t', 'umf_memory_provider_ipc_ops_t',
       'umf_memory_pool_ops_t', 'umf_memtarget_ops_t'}
EXTRA = {'coarse_new', 'coarse_alloc', 'coarse_free', 'coarse_split', 'coarse_merge', 'coarse_delete',
         'coarse_add_memory_fixed', 'coarse_add_memory_from_provider', 'coarse_get_stats',
         'umfMemtargetCreate', 'umfMemtargetDestroy', 'umfMemtargetClone', 'umfMemtargetGetBandwidth', 'umfMemtargetGetLatency',
         'umfMemtargetCompare', 'umfMemspaceCreateFromNumaArray', 'umfMemspaceClone', 'umfMemspaceFilter',
         'umfIpcOpenedCacheCreate', 'umfTrackingMemoryProviderCreate', 'umfMemoryTrackerDestroy', 'umf_ba_global_free',
         'umfMemspaceSortDesc', 'utils_parse_var', 'utils_copy_path'}
TABLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'nullargs.json')


def null_roots(prog):
    pub = public_names(prog)
    ro = roles.roles(prog)
    out = []
    for f in prog.fn.values():
        r = any(t[0] in OPS for t in ro.get(f.uname, ()))
        if not (f.name in pub and not f.internal or r or f.name in EXTRA):
            continue
        for k, t in enumerate(f.ptys):
            if t.k == 'ptr':
                out.append((f, k))
    return out


class NullChecker(BaseChecker):
    """follows the entry point with one argument NULL and records every outcome"""

    def __init__(self, prog, root, variant=None):
        super().__init__(prog, root, variant)
        self.kind = status_of(root)
        self.out = {}

    def setup(self, eng, f, st, variant):
        args = [mk('arg', p[1:], f.uname) for p in f.params]
        args[variant] = 0
        self.args = args
        return args

    def rec(self, what, ins, st):
        o = self.out.get(what)
        if o is None:
            self.out[what] = (ins.fn.file, ins.line, ins.fn.name, st.tracelist())

    def deref(self, eng, st, addr, ins, ctx):
        if addr.__class__ is int:
            self.rec('deref', ins, st)

    def call(self, eng, st, name, args, ins, ctx):
        if name == '__assert_fail':
            self.rec('assert', ins, st)
        return None

    def store(self, eng, st, addr, v, ins, ctx):
        if addr.__class__ is T:
            r = root_of(split(addr)[0])
            while r.__class__ is T and r.k == 'ld':
                r = root_of(r.a[0])
            if r.__class__ is T and r.k == 'arg':
                st.ts[('w',)] = (ins.fn.file, ins.line, ins.fn.name)

    def root_exit(self, eng, st, fn, ret, ins):
        self.count('exits')
        c = known_const(st, ret) if ret is not None else None
        nn = c not in (None, 0) or c is None and ret.__class__ is T and nonnull(st, ret)
        if self.kind in ('enum', 'int'):
            w = 'ok' if c == 0 else f'fail={c}' if c is not None and self.kind == 'enum' else 'fail' if nn else 'any'
        elif self.kind == 'ptr':
            w = 'null' if c == 0 else 'ptr'
        elif fn.rty.k == 'void':
            w = 'void'
        else:
            w = 'value' if c is None else f'value={c}'
        self.rec(w, ins, st)
        if (w[:4] == 'fail' or w == 'null') and ('w',) in st.ts:
            self.rec('effect', ins, st)

    def result(self):
        return {'counts': self.counts, 'out': self.out, 'root': (self.root.name, self.variant)}


CRASH = {'deref', 'assert', 'effect'}
WHAT = {'deref': 'is dereferenced', 'assert': 'aborts the process', 'effect': 'is rejected only after the caller\'s objects were changed'}


def classify(outs, public):
    """the class recorded for one argument: the set of outcomes allowed, or None when it is not mandatory"""
    if outs & CRASH:
        return None
    if all(o[:4] == 'fail' for o in outs) or outs in ({'null'}, {'void'}, {'value=0'}):
        return sorted(outs)
    return ['nocrash'] if public else None


def make_table(res, public):
    """(maintenance, not part of the check) what is mandatory, from the sweep of a reviewed tree"""
    t = {}
    bad = set()
    for c, u, r in res:
        k = '%s|%d' % r['root']
        cl = classify(set(r['out']), r['root'][0] in public)
        if cl is None or not r['out']:
            bad.add(k)
        elif k in t and (t[k] == ['nocrash'] or cl == ['nocrash']):
            t[k] = ['nocrash']
        else:
            t[k] = sorted(set(t.get(k, [])) | set(cl))
    return {k: v for k, v in sorted(t.items()) if k not in bad and (
        'fail=3' in v or v[0] in ('null', 'void', 'value=0', 'nocrash'))}


def judge(allowed, outs):
    """outcomes that break the recorded class"""
    o = set(outs)
    bad = o & CRASH
    if allowed != ['nocrash']:
        bad |= {x for x in o - CRASH if x not in allowed and x != 'fail'}
        if 'fail=1' in allowed and 'fail=3' in allowed and not o & {'fail=3', 'fail'}:
            bad |= o - CRASH
    return sorted(bad)


def table():
    with open(TABLE) as f:
        return json.load(f)


if __name__ == '__main__':
    import sys
    import checks
    import common
    rep = common.Report('C09')
    rep.tier = 'quick'
    import front
    t = make_table(checks.sweep(rep, NullChecker, ['full', 'nohwloc'], rootsel=null_roots, maxsteps=100000), public_names(front.load('full')))
    with open(TABLE, 'w') as f:
        json.dump(t, f, indent=0, sort_keys=True)
    print(len(t))
