#!/usr/bin/env python3
"""python3 sa/run.py <property> [--tier quick|thorough]   (tier defaults to $VERIF_TIER or quick)"""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import front


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    import checks
    t0 = time.time()
    rep = common.Report(prop)
    rep.tier = tier
    f = checks.CHECKS.get(prop)
    if f is None:
        print('no check for', prop)
        return 2
    try:
        f(rep)
    except front.AnalysisError as e:
        print('ANALYSIS-ERROR:', e)
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR: internal error of the checker')
        return 3
    return common.finish(rep, t0)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
