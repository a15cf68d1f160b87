"""soak.py SECONDS [FILTER...] : native sampling of every contract for SECONDS each with fresh random seeds and with text and
number constants of the code mixed in, to find false alarms that a normal run meets rarely."""
import os, sys, time, random, json, multiprocessing as mp
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import runner, api


def one(a):
    name, secs = a
    c = api.REG[name]
    c.opts['tier'] = 'quick'
    mods = {'openleadr.' + t for t in c.targets}
    strs, ints = runner.harvest(mods)
    seed = random.randrange(10 ** 9)
    rng = random.Random(seed)
    end = time.time() + secs
    n = 0
    while time.time() < end:
        s = strs if rng.random() < .5 else rng.sample(list(strs), min(len(strs), 3))
        st, label, detail, w = runner.run_concrete_case(c, None, rng, s, ints)
        n += st != 'skip'
        if st == 'fail': return name, n, label, detail[-900:], json.dumps(runner.jsonable_d(w.log))[:1500]
        if st == 'missing': return name, n, 'missing', detail, ''
    return name, n, None, None, None


if __name__ == '__main__':
    runner.load()
    names = [n for n in api.REG if not sys.argv[2:] or any(f in n for f in sys.argv[2:])]
    with mp.Pool(6, maxtasksperchild=1) as p:
        for name, n, label, detail, log in p.imap_unordered(one, [(n, float(sys.argv[1])) for n in names]):
            print(name, n, label or 'ok', flush=True)
            if label: print(detail, log, flush=True)
