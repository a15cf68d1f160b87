"""Runs contracts: proof, replay of refutations, bounded concrete stand-in; writes evidence."""
import ast
import glob
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if VERIF not in sys.path: sys.path.insert(0, VERIF)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.path.insert(0, REPO)

from . import api, intrinsics, lib, schema  # noqa: E402
from .path import Path, Forker, Stats, Budget, Infeasible  # noqa: E402
from .values import Unsupported, PyExc  # noqa: E402
from .interp import Interp, ast_of  # noqa: E402
from . import world as W  # noqa: E402
from . import wire  # noqa: E402,F401

ROOTS = (os.path.join(REPO, 'openleadr') + os.sep, os.path.join(VERIF, 'contracts') + os.sep,
         os.path.join(VERIF, 'pyvc', 'lib.py'))


class TargetMissing(Exception):
    pass


def load():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    import openleadr
    import openleadr.client, openleadr.server, openleadr.preflight, openleadr.messaging  # noqa
    assert os.path.realpath(openleadr.__file__).startswith(os.path.realpath(REPO)), openleadr.__file__
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.py'))):
        m = importlib.import_module('contracts.' + os.path.basename(f)[:-3])
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__ and v.__bases__ == (object,): lib.stand_in(v)
    return api.REG


# ------------------------------------------------------------------ harvesting constants from the code
def harvest(touched):
    strs, ints = set(), set()
    import importlib
    for q in touched:
        try:
            node = ast_of(W.resolve(q)[2])
        except Exception:
            continue
        for n in ast.walk(node):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and 0 < len(n.value) < 40 and '\n' not in n.value: strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) < 10**6:
                    ints.update((n.value - 1, n.value, n.value + 1))
    return sorted(strs), sorted(ints)


# ------------------------------------------------------------------ symbolic
def run_symbolic(c, unbounded, budget_s, obl_ms, max_paths=20000):
    res = W.SymResult()
    stats = Stats()
    deadline = time.time() + budget_s
    opts = dict(c.opts)
    opts['unbounded'] = unbounded
    opts['obl_ms'] = obl_ms
    intrinsics.USED.clear()

    def run(path):
        w = W.SymWorld(path, res, ROOTS, opts)
        w.it.MAX_STEPS = 400000
        try:
            w.it.call(w.it.real_func(c.fn), [w], {})
            res.completed_paths += 1
        except PyExc as e:
            rec = res.rec('contract text raises nothing')
            rec['n'] += 1
            rec['failed'] += 1
            if path.check() == W.z3.sat:
                res.failures.append(W.Failure('contract text raises nothing', 'exception',
                                              w.assignment(path.solver.model()), repr(e)[:300], path.abstract, 0))
    t0 = time.time()
    forker = Forker(res, stats)
    path = Path([], stats, deadline, forker=forker)
    try:
        run(path)
    except Infeasible:
        pass
    except Unsupported as e:
        res.unsupported = f"{type(e).__name__}: {e}"
    except W.z3.Z3Exception as e:
        res.unsupported = f"z3: {e}"
    except RecursionError:
        res.unsupported = "recursion limit"
    except AttributeError as e:
        if getattr(e, 'verif_missing', None) or (e.args and str(e.args[0]).startswith('openleadr.')):
            res.unsupported = f"target missing: {e}"
        else:
            res.unsupported = "engine error: " + traceback.format_exc()[-1500:]
    except BaseException:
        res.unsupported = "engine error: " + traceback.format_exc()[-1500:]
    res.paths += 1
    res.lib.update(intrinsics.USED)
    forker.finish()
    forker.collect()
    res.stats = stats
    res.wall = time.time() - t0
    res.lib = sorted(res.lib)
    return res


# ------------------------------------------------------------------ concrete
class CaseTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def contract_consts(c):
    out = {v for v in c.fn.__globals__.values() if isinstance(v, str) and 0 < len(v) < 20 and not v.startswith('_')}
    try: node = ast_of(c.fn)
    except Exception: return sorted(out)
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 12 and ' ' not in n.value:
            out.add(n.value)
    return sorted(out)


def run_concrete_case(c, assign, rng, strs=(), ints=(), perturb=False):
    """-> ('ok'|'skip'|'fail'|'missing', label, detail, log)"""
    if not hasattr(c, 'consts'): c.consts = contract_consts(c)
    lib.GAP.clear()
    r = run_case(c, W.ConcWorld(assign, rng, c.opts, strs, ints, c.consts, perturb))
    return ('skip', None, '', r[3]) if lib.GAP else r


def run_case(c, w):
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, 8)  # CPU time: waiting is always a stand-in
    try:
        c.fn(w)
        return 'ok', None, '', w
    except (W.SkipCase, Infeasible, lib.Gap):
        return 'skip', None, '', w
    except W.CheckFailed as e:
        return 'fail', e.label, e.detail, w
    except CaseTimeout:
        return 'fail', 'terminates', 'did not finish within 8 s of CPU time', w
    except AttributeError as e:
        if e.args and str(e.args[0]).startswith('openleadr.'): return 'missing', None, str(e), w
        return 'fail', 'contract text raises nothing', traceback.format_exc()[-1500:], w
    except Exception:
        return 'fail', 'contract text raises nothing', traceback.format_exc()[-1500:], w
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        w.close()


def jsonable(v):
    if isinstance(v, (str, int, float, bool)) or v is None: return v
    if isinstance(v, (tuple, list)): return [jsonable(x) for x in v]
    return repr(v)


def run_contract(name, tier, seed, verbose=False):
    c = api.REG[name]
    c.opts['tier'] = tier
    quick = tier == 'quick'
    out = {'contract': name, 'targets': list(c.targets), 'props': list(c.props)}
    t0 = time.time()
    budget = c.opts.get('budget', 150) * (1 if quick else 4)
    obl_ms = 10000 if quick else 40000
    sym = None
    tried = []
    if not c.opts.get('concrete_only'):
        modes = [True, False] if c.opts.get('lists', True) else [False]
        for unb in modes:
            left = budget if not tried else max(budget / 3, budget * 1.3 - (time.time() - t0))
            r = run_symbolic(c, unb, left, obl_ms, c.opts.get('max_paths', 20000) * (1 if quick else 4))
            tried.append((unb, r))
            ok = r.unsupported is None and not any(o['unknown'] for o in r.obl.values())
            if ok or not r.symlists: break
        # choose the first run without Unsupported, else the last
        sym = next((r for u, r in tried if r.unsupported is None and not any(o['unknown'] for o in r.obl.values())), None) \
            or next((r for u, r in tried if r.unsupported is None), None) or tried[-1][1]
    out['unbounded_unsupported'] = tried[0][1].unsupported if tried and tried[0][1] is not sym else None
    touched = set()
    failures = []
    if sym is not None:
        touched = {t for t in sym.touched if t.startswith('openleadr.')}
        out.update(paths=sym.paths, unsupported=sym.unsupported, obl=sym.obl, backend=sym.backend,
                   solver_s=round(sym.stats.solver_s, 2), solver_checks=sym.stats.checks,
                   touched=sorted(touched), stubs=sorted(sym.stubs), bounded=sorted(sym.bounded),
                   lib=sym.lib, covers=sorted(sym.covers), completed_paths=sym.completed_paths,
                   sym_wall=round(sym.wall, 2))
        for u, r in tried:
            failures += r.failures
    else:
        out.update(paths=0, unsupported='concrete only', obl={}, backend={}, solver_s=0, solver_checks=0, touched=[],
                   stubs=[], bounded=[], lib=[], covers=[], completed_paths=0, sym_wall=0)
    strs, ints = harvest(touched | set('openleadr.' + t for t in c.targets))
    # ---- replay refutations
    violations = []
    spurious, unreplayed = [], []
    seen = set()
    for f in failures:
        key = f.label
        if key in seen: continue
        st, label, detail, w = run_concrete_case(c, dict(f.assign), random.Random(seed), strs, ints)
        if st == 'fail':
            seen.add(key)
            violations.append({'label': label, 'obligation': f.label, 'detail': detail, 'assign': jsonable_d(w.log),
                               'how': 'counterexample of the verifier, replayed on the real code'})
        elif st == 'ok':
            spurious.append({'label': f.label, 'info': f.info, 'assign': jsonable_d(f.assign)})
        else:
            unreplayed.append({'label': f.label, 'info': f.info, 'assign': jsonable_d(f.assign),
                               'abstract': f.abstract, 'why': st + ' ' + detail})
    # ---- around models that turned out spurious: concrete runs near them
    near = 0
    for sp in spurious[:6]:
        rng = random.Random(f"{seed}:{name}:{sp['label']}")
        until = time.time() + (3 if quick else 20)
        for _ in range(150 if quick else 600):
            if violations or time.time() > until: break
            keep = rng.choice([.5, .8, .95, 1])
            a = {k: v for k, v in sp['assign'].items() if rng.random() < keep}
            texts = [k for k, v in a.items() if isinstance(v, str)]
            if texts and rng.random() < .5:
                a[rng.choice(texts)] = schema.lookalike(rng, rng.choice([a[k] for k in texts] + c.consts)) or 'x'
            st, label, detail, w = run_concrete_case(c, a, rng, strs, ints, perturb=True)
            near += st in ('ok', 'fail')
            if st == 'fail':
                violations.append({'label': label, 'obligation': sp['label'], 'detail': detail, 'assign': jsonable_d(w.log),
                                   'how': 'concrete run of the real code near an abstract counterexample of the verifier'})
    out['near_runs'] = near
    # ---- sampling
    n = c.opts.get('samples', 300) * (1 if quick else 10)
    tlim = time.time() + c.opts.get('sample_s', 12) * (1 if quick else 8)
    if sym is not None and (sym.unsupported is not None or any(o['discharged'] != o['n'] for o in sym.obl.values())):
        # the proof did not go through: look harder
        n *= 12
        tlim += 25
    rng = random.Random(f"{seed}:{name}")
    ran = skipped = 0
    distinct = set()
    samples = []
    missing = None
    checks = 0
    for i in range(n * 4):
        if ran >= n or time.time() > tlim: break
        st, label, detail, w = run_concrete_case(c, None, rng, strs, ints)
        if st == 'missing':
            missing = detail
            break
        if st == 'skip':
            skipped += 1
            continue
        ran += 1
        checks += w.checks
        h = hashlib.md5(json.dumps(jsonable_d(w.log), sort_keys=True).encode()).hexdigest()
        distinct.add(h)
        if len(samples) < 2: samples.append(jsonable_d(w.log))
        if st == 'fail':
            violations.append({'label': label, 'obligation': label, 'detail': detail, 'assign': jsonable_d(w.log),
                               'how': 'bounded sampling of the contract on the real code'})
            if len([v for v in violations if v['how'].startswith('bounded')]) >= 2: break
    out.update(sampled=ran, skipped=skipped, distinct=len(distinct), samples=samples, sample_checks=checks,
               violations=violations, spurious=spurious, unreplayed=unreplayed, missing=missing,
               wall=round(time.time() - t0, 2))
    proved = (sym is not None and sym.unsupported is None and sym.completed_paths > 0
              and sum(o['n'] for o in sym.obl.values()) > 0
              and all(o['discharged'] == o['n'] for o in sym.obl.values()))
    out['proved'] = bool(proved and not sym.bounded)
    out['proved_bounded'] = bool(proved and sym.bounded)
    return out


def jsonable_d(d): return {k: jsonable(v) for k, v in d.items()}


def _worker(args):
    name, tier, seed, q = args
    try:
        os.setpgid(0, 0)
    except OSError: pass
    try:
        r = run_contract(name, tier, seed)
    except BaseException:
        r = {'contract': name, 'crash': traceback.format_exc()[-3000:], 'props': list(api.REG[name].props),
             'targets': list(api.REG[name].targets)}
    q.put(r)


def run_many(names, tier, seed, jobs=8, hard=None, total=None):
    """each contract in its own process"""
    hard = hard or (400 if tier == 'quick' else 4000)
    total = total or (780 if tier == 'quick' else 40000)
    results = {}
    ctx = mp.get_context('fork')
    begin = time.time()
    pending = list(names)
    live = {}
    while pending or live:
        while pending and len(live) < jobs:
            n = pending.pop(0)
            if time.time() - begin > total:
                results[n] = {'contract': n, 'crash': 'time limit of the check', 'props': [], 'targets': []}
                continue
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=((n, tier, seed, q),))
            p.start()
            live[n] = (p, q, time.time())
        time.sleep(0.02)
        for n, (p, q, t) in list(live.items()):
            if not q.empty():
                results[n] = q.get()
                p.join(5)
                if p.is_alive(): p.kill()
                del live[n]
            elif not p.is_alive():
                time.sleep(0.05)
                if not q.empty(): results[n] = q.get()
                else: results[n] = {'contract': n, 'crash': f'worker died ({p.exitcode})', 'props': [], 'targets': []}
                del live[n]
            elif time.time() - t > hard or time.time() - begin > total:
                try: os.killpg(p.pid, 9)
                except OSError: p.kill()
                results[n] = {'contract': n, 'crash': 'hard time limit', 'props': [], 'targets': []}
                del live[n]
    return results


def contracts_for(prop):
    return [n for n, c in api.REG.items() if prop in c.props]
