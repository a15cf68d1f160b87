"""mkseed.py SPEC.py : SPEC defines SEEDS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)].
Makes /verif/seeded/<id>/ after confirming on scratch copies: applies, touches original lines, demo passes without and
fails with it, stable tests pass with it."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = '/verif/seeded'
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(s):
    if only and s['id'] not in only: return s['id'], 'skipped'
    W = tempfile.mkdtemp(dir='/tmp/sw')
    try:
        sh(f'cp -a /repo {W}/repo')
        files = s['file'] if isinstance(s['file'], list) else [s['file']]
        for f, old, new in [(e if len(e) == 3 else (files[0], *e)) for e in s['edits']]:
            p = f'{W}/repo/{f}'
            t = open(p).read()
            if t.count(old) != 1: return s['id'], f'edit matches {t.count(old)} times: {old[:60]!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh(f'git -C {W}/repo diff').stdout
        base = {f: sh(f'git -C /repo show f65fe86:{f}').stdout.split('\n') for f in files}
        removed = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        if not any(l.strip() and any(l in b for b in base.values()) for l in removed):
            return s['id'], 'changes no original line (pure insertion or own lines): ' + repr(removed)
        d = f"{V}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 TZ=UTC\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
        if r0.returncode != 0:
            return s['id'], 'BAD demo fails on unchanged tree: ' + r0.stderr[-600:]
        r1 = sh(f'unshare -Urm bash -c "mount --bind {W}/repo /repo && cd /repo && bash {d}/demo.sh"')
        if r1.returncode == 0: return s['id'], 'BAD demo passes with the patch'
        r2 = sh(f'/verif/tools/ns_test.sh {d}/patch.diff {W}/o.json')
        ok = 'missing stable: []' in r2.stdout
        return s['id'], ('ok' if ok else 'BAD tests: ' + r2.stdout[-500:] + r2.stderr[-300:]) + ' | ' + r1.stderr.strip().split('\n')[-1][:120]
    finally:
        if W.startswith('/tmp/sw/'): shutil.rmtree(W, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, spec['SEEDS']): print(i, r, flush=True)
