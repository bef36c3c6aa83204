"""One function per property: loads the configurations, runs the analysis, fills the report."""
import front
import common
import specs
from common import explore

CHECKS = {}
INFO = {}      # property -> (technique, level note) for the manifest


def check(prop, technique, note):
    def deco(f):
        CHECKS[prop] = f
        INFO[prop] = (technique, note)
        return f
    return deco


def configs(rep, proxy=True, nohwloc=True, release=False):
    """release: also the code as it is compiled for users, where assert() checks nothing"""
    c = ['full'] + (['nohwloc'] if nohwloc else []) + (['proxy'] if proxy else [])
    return c + (['release'] + (['proxyrel'] if proxy else []) if release else [])


def module_roots(prog, skip=()):
    """functions whose callers the analysis does not look through: the public API, operation-table
    and callback functions, the modelled internal interfaces, and whatever nobody in the library calls"""
    callers = common.direct_callers(prog)
    ent = {f.uname for f in common.entry_roots(prog)}
    out = []
    for f in common.roots(prog):
        if f.uname in ent or f.name in specs.SPECS or not callers.get(f.uname, set()) - {f.uname}:
            if not any(s in f.tu for s in skip):
                out.append(f)
    return out


def sweep(rep, mk, configs, skip=(), rootsel=None, **opts):
    """run a path checker from every module root of every configuration"""
    res = []
    seen = set()
    same = 0
    for c in configs:
        prog = front.load(c)
        rep.stats.setdefault('programs', []).append(prog.stats())
        rs = rootsel(prog) if rootsel else module_roots(prog, skip)
        rep.stats['roots_' + c] = len(rs)
        # an entry point whose whole call tree compiles to the same code as in an earlier configuration is not repeated
        todo = []
        for r in rs:
            f, var = r if isinstance(r, tuple) else (r, None)
            k = (f.uname, front.fingerprint(prog, f), str(var))
            if k in seen:
                same += 1
                continue
            seen.add(k)
            todo.append(r)
        rep.stats['roots_identical_to_another_configuration'] = same
        rs = todo
        for u, r in explore(prog, rs, mk, rep, **opts):
            res.append((c, u, r))
            rep.merge_stats({'events': r.get('counts', {})})
    return res


ENGINE_ASSUME = [
    'calls into libc, hwloc, the GPU driver and oneTBB behave as their models (success with outputs set, or failure) say',
    'loops with undetermined trip counts are followed a bounded number of times; states beyond the cap are sampled '
    '(the counts are in coverage.analysis)',
    'consistency self-checks compiled under assert() hold',
]

import check_paths    # noqa: E402,F401
import check_api    # noqa: E402,F401
import check_locks    # noqa: E402,F401
import check_size    # noqa: E402,F401
import check_struct    # noqa: E402,F401
import check_tls    # noqa: E402,F401
import check_track    # noqa: E402,F401
import check_life    # noqa: E402,F401
import check_enum    # noqa: E402,F401
import check_copy    # noqa: E402,F401
import check_buf    # noqa: E402,F401
import check_init    # noqa: E402,F401
import check_sym    # noqa: E402,F401
import check_account    # noqa: E402,F401
import check_ctl    # noqa: E402,F401
import check_proxy    # noqa: E402,F401
import check_index    # noqa: E402,F401
