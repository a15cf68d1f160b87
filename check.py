#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]    decide one property
   check.py --contract NAME [-v]                  run one contract, print details
   check.py --replay FILE                         re-run a recorded violation on the real code
   check.py --all                                 run everything, print a table"""
import json
import os
import sys
import time
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    args = []
    it = iter(argv)
    contract = replay = None
    allf = verbose = False
    for a in it:
        if a == '--tier': tier = next(it)
        elif a == '--seed': seed = int(next(it))
        elif a == '--contract': contract = next(it)
        elif a == '--replay': replay = next(it)
        elif a == '--all': allf = True
        elif a == '-v': verbose = True
        else: args.append(a)
    from pyvc import runner, report
    runner.load()
    if contract:
        for c in contract.split(','):
            r = runner.run_contract(c, tier, seed)
            report.print_contract(r, verbose)
        return 0
    if replay: return report.do_replay(replay)
    if allf: return report.run_all(tier, seed, args)
    return report.check_property(args[0], tier, seed)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
