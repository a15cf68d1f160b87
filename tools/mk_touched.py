"""mk_touched.py TOUCHED.json NAMED.json [CONTRACT...] : which functions each contract interprets / names, for mutate.py
(updates the files for the contracts given; all of them by default)."""
import json, os, sys
from concurrent.futures import ProcessPoolExecutor
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pyvc import runner, api
runner.load()


def one(name):
    c = api.REG[name]
    if c.opts.get('concrete_only'): return name, ['openleadr.' + t for t in c.targets]
    c.opts['samples'] = 1
    r = runner.run_contract(name, 'quick', 1)
    return name, sorted(set(r['touched']))


if __name__ == '__main__':
    t, n = [json.load(open(p)) if os.path.exists(p) else {} for p in sys.argv[1:3]]
    names = sys.argv[3:] or list(api.REG)
    with ProcessPoolExecutor(int(os.environ.get('JOBS', '4'))) as ex:
        for k, v in ex.map(one, names):
            t[k] = v
            n[k] = list(api.REG[k].targets)
    json.dump(t, open(sys.argv[1], 'w'))
    json.dump(n, open(sys.argv[2], 'w'))
    print(len(t))
