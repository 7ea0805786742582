#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough]    runs the check of one property
   run.py --replay FILE                   runs the check that wrote FILE again and
                                          replays the recorded execution"""
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mc'))
sys.dont_write_bytecode = True
import build
import report

LEVEL = {}


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    if args[0] == '--replay':
        rec = json.load(open(args[1]))
        prop, tier = rec['property'], rec['tier']
        os.environ['VERIF_REPLAY'] = args[1]
    else:
        prop = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import checks
    fn, level = checks.CHECKS[prop]
    violation = None
    # Exploration stops then, so that a slow machine gives an answer too.
    os.environ.setdefault('PBMC_DEADLINE', str(int(time.time()) + 780))
    with build.Scratch() as d:
        ctx = report.Ctx(prop, tier, seed, d)
        try:
            fn(ctx)
        except build.Violation as e:
            violation = e
        return report.finish(ctx, level, violation)


if __name__ == '__main__':
    sys.exit(main())
