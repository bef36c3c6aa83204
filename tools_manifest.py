#!/usr/bin/env python3
"""rewrites MANIFEST.json from the checks that exist (sa/checks.py) and properties.jsonl"""
import json
import os
import sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'sa'))
import checks  # noqa: E402

NA = {
    'C30': 'Disjointness of live ranges and their sizes depends on the arithmetic contents of free lists, bitmaps and trees '
           'after arbitrary histories; no syntactic or type-level rule bounds those runtime values. The statically decidable '
           'ingredients are claimed elsewhere: overflow guards (C12), lock discipline (C01-C03), no use after release (C06), '
           'tracker ordering (C17), accounting (C29).',
    'C31': 'Equality with an ordered map after every history is a functional-correctness statement over the radix tree contents '
           '(slice indices, shifts, stored keys); deciding it needs execution, model checking or proof rather than a static rule. '
           'The publication and locking protocol of the same tree is claimed as C19.',
    'C32': 'Whether two mappings show the same bytes depends on the kernel, the driver and runtime file offsets; the source only '
           'passes offsets through. Pairing and ownership of handles and mappings is claimed as C18.',
    'C33': 'Which node set a page lands on is decided by bitmap contents computed at run time from the machine topology and by the '
           'kernel; the static parts (enumerators handled, failures of hwloc calls reported, params copied) are claimed as C25, C08, C26.',
    'C34': 'Limits are inequalities between counters accumulated over arbitrary histories and configuration values; a static rule '
           'can show that updates are guarded and balanced (C02, C29) but not that the numeric bound holds.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    out = {'version': 1, 'setup_cmd': 'python3 sa/setup.py', 'checks': [], 'not_applicable': [],
           'notes': 'All checks are static analyses of LLVM IR (clang 18) and clang ASTs of /repo\'s current sources; nothing of /repo is executed.'}
    for p in props:
        i = p['id']
        if i in checks.CHECKS:
            tech, note = checks.INFO[i]
            out['checks'].append({'property': i, 'quick_cmd': f'python3 sa/run.py {i}',
                                  'thorough_cmd': f'python3 sa/run.py {i} --tier thorough',
                                  'technique': tech, 'level': 'other', 'level_note': note})
        else:
            out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built for it')})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(out['checks']), 'claimed', len(out['not_applicable']), 'not applicable')


main()
