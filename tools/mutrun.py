"""mutrun.py CONTRACT[,..] : on the code in VERIF_REPO, run the contracts until one reports a violation; prints KILLED/SURVIVED"""
import os, sys, time, random
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
try:
    from pyvc import runner, api
    runner.load()
except BaseException as e:
    print('BROKEN', repr(e)[:200])
    sys.exit(0)
names = sys.argv[1].split(',')
for name in names:
    c = api.REG[name]
    c.opts['tier'] = 'quick'
    strs, ints = runner.harvest({'openleadr.' + t for t in c.targets})
    rng = random.Random(1)
    end = time.time() + 1.5
    for _ in range(400):
        if time.time() > end: break
        st, label, detail, w = runner.run_concrete_case(c, None, rng, strs, ints)
        if st == 'fail':
            print('KILLED', name, label)
            sys.exit(0)
        if st == 'missing': break
if os.environ.get('MUT_SAMPLE'):
    print('SURVIVED')
    sys.exit(0)
for name in names:
    try: r = runner.run_contract(name, 'quick', 1)
    except BaseException as e:
        print('crash', name, repr(e)[:100])
        continue
    if r.get('violations') or any(not u['abstract'] for u in r.get('unreplayed', [])):
        print('KILLED', name, 'full')
        sys.exit(0)
print('SURVIVED')
