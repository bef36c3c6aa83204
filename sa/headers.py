"""Public interface as the compiler sees it: declarations from include/umf."""
import json
import os
import re
import subprocess
import tempfile
from front import REPO, LLVM, AnalysisError

_c = {}


def header_files():
    d = os.path.join(REPO, 'include', 'umf')
    out = []
    for r, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.endswith('.h'):
                out.append(os.path.join(r, f))
    out.append(os.path.join(REPO, 'include', 'umf.h'))
    return [f for f in sorted(out) if os.path.exists(f)]


def ast():
    if 'ast' in _c:
        return _c['ast']
    with tempfile.NamedTemporaryFile('w', suffix='.c', delete=False) as t:
        for h in header_files():
            t.write(f'#include "{h}"\n')
    try:
        r = subprocess.run([LLVM + '/clang', '-fsyntax-only', '-w', '-I' + os.path.join(REPO, 'include'), '-Xclang', '-ast-dump=json', t.name],
                           capture_output=True, text=True)
    finally:
        os.unlink(t.name)
    if r.returncode:
        raise AnalysisError('public headers do not compile: ' + r.stderr[:800])
    j = json.loads(r.stdout)
    _c['ast'] = j
    return j


def decls():
    """[(kind, name, qualtype, file)] declared in include/umf"""
    if 'decls' in _c:
        return _c['decls']
    out = []
    cur = None
    inc = os.path.join(REPO, 'include')

    def upd(loc):
        nonlocal cur
        if not loc:
            return
        for l in (loc, loc.get('expansionLoc') or {}, loc.get('spellingLoc') or {}):
            if l.get('file'):
                cur = l['file']
    for d in ast()['inner']:
        upd(d.get('loc'))
        f = cur
        if not f or not f.startswith(inc):
            continue
        out.append((d['kind'], d.get('name'), (d.get('type') or {}).get('qualType'), os.path.relpath(f, REPO), d))
    _c['decls'] = out
    return out


def declared():
    return sorted({n for k, n, t, f, d in decls() if k == 'FunctionDecl' and n})


def signatures():
    """public function -> list of parameter types as written"""
    if 'sig' not in _c:
        _c['sig'] = {n: [(x.get('type') or {}).get('qualType', '') for x in d.get('inner', ()) if x['kind'] == 'ParmVarDecl']
                     for k, n, t, f, d in decls() if k == 'FunctionDecl'}
    return _c['sig']


def enums():
    """enumeration (typedef or tag name) -> {enumerator: value} as the compiler evaluates them, public headers only"""
    if 'enums' in _c:
        return _c['enums']
    inc = os.path.join(REPO, 'include')
    out = {}
    byid = {}
    for k, n, t, f, d in decls():
        if k == 'EnumDecl':
            vals = {}
            last = -1
            for e in d.get('inner', ()):
                if e['kind'] != 'EnumConstantDecl':
                    continue
                v = const_value(e)
                last = last + 1 if v is None else v
                vals[e['name']] = last
            byid[d['id']] = vals
            if n:
                out[n] = vals
        elif k == 'TypedefDecl':
            def find(x):
                o = x.get('ownedTagDecl') or x.get('decl') or {}
                if o.get('id') in byid:
                    return byid[o['id']]
                for y in x.get('inner', ()):
                    r = find(y)
                    if r is not None:
                        return r
                return None
            v = find(d)
            if v is not None and n:
                out[n] = v
    _c['enums'] = out
    return out


def const_value(e):
    for x in e.get('inner', ()):
        if x.get('kind') == 'ConstantExpr' and 'value' in x:
            return int(x['value'])
        v = const_value(x)
        if v is not None:
            return v
    return None
