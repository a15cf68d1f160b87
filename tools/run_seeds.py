"""run_seeds.py [ID...] : runs the check of the property of each seeded change on a patched scratch copy."""
import json, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = '/verif/seeded'


def one(i):
    W = tempfile.mkdtemp(dir='/tmp/sw')
    try:
        subprocess.run(f'cp -a /repo {W}/repo && git -C {W}/repo apply {V}/{i}/patch.diff', shell=True, check=True)
        prop = json.load(open(f'{V}/{i}/meta.json'))['property']
        t = time.time()
        r = subprocess.run(['python3-vt', '/verif/check.py', prop, '--tier', 'quick'], capture_output=True, text=True,
                           env={**os.environ, 'VERIF_REPO': W + '/repo', 'VERIF_EV': W + '/ev'}, cwd='/verif')
        v = [l for l in r.stdout.split('\n') if l.startswith(('obligation', 'VIOLATION', 'undecided', 'note'))]
        return i, prop, r.returncode, round(time.time() - t), v[:4], r.stderr[-300:]
    finally:
        if W.startswith('/tmp/sw/'): shutil.rmtree(W, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(V))
with ThreadPoolExecutor(2) as ex:
    for i, p, rc, t, v, err in ex.map(one, ids):
        print(i, p, 'CAUGHT' if rc == 1 else 'MISSED' if rc == 0 else 'ERROR', f'{t}s', flush=True)
        for l in v: print('    ', l[:230])
        if rc not in (0, 1): print(err)
