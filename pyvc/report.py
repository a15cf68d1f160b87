"""Verdicts, evidence files, replay files."""
import json
import os
import random
import sys
import time
from . import runner, api

VERIF = runner.VERIF
EV = os.environ.get('VERIF_EV') or os.path.join(VERIF, 'evidence')


def print_contract(r, verbose=False):
    if r.get('crash'):
        print(r['contract'], 'CRASH', r['crash'])
        return
    n = sum(o['n'] for o in r['obl'].values())
    d = sum(o['discharged'] for o in r['obl'].values())
    tag = 'PROVED' if r['proved'] else 'PROVED-BOUNDED' if r['proved_bounded'] else 'UNDECIDED'
    if r['violations']: tag = 'VIOLATED'
    print(f"{r['contract']:42s} {tag:15s} paths={r['paths']} obl={d}/{n} samples={r['sampled']} skip={r['skipped']} "
          f"wall={r['wall']}s sym={r['sym_wall']}s solver={r['solver_s']}s")
    if r.get('unsupported') and r['unsupported'] != 'concrete only': print("    unsupported:", r['unsupported'])
    if r.get('unbounded_unsupported'): print("    unbounded:", r['unbounded_unsupported'])
    if r.get('missing'): print("    missing:", r['missing'])
    for lab, o in r['obl'].items():
        if verbose or o['discharged'] != o['n']: print("   ", lab, o)
    for v in r['violations'][:3]:
        print("    VIOLATION", v['label'], '|', v['how'])
        print("      ", json.dumps(v['assign'])[:900])
        if v['detail']: print("      ", v['detail'][-700:])
    for s in r['spurious'][:3]: print("    spurious:", s['label'], s['info'], json.dumps(s['assign'])[:900])
    for s in r['unreplayed'][:3]: print("    unreplayed:", s['label'], s['info'], s['why'], json.dumps(s['assign'])[:900])
    if verbose:
        print("    touched", r['touched'])
        print("    stubs", r['stubs'], 'bounded', r['bounded'], 'lib', r['lib'])


def run_all(tier, seed, args):
    names = [n for n in api.REG if not args or any(a in n or a in api.REG[n].props for a in args)]
    res = runner.run_many(names, tier, seed)
    for n in names: print_contract(res[n])
    np = sum(1 for r in res.values() if r.get('proved'))
    nb = sum(1 for r in res.values() if r.get('proved_bounded'))
    print(f"{len(res)} contracts, {np} proved, {nb} proved within a list-length bound")
    return 0


def do_replay(path):
    rec = json.load(open(path))
    if rec.get('finding'):
        live = api.FINDINGS[rec['finding']][2]()
        print('live' if live else 'gone', rec['label'])
        return 1 if live else 0
    if rec.get('assign') is None:
        print(json.dumps(rec, indent=1))
        return 1
    c = api.REG[rec['contract']]
    st, label, detail, w = runner.run_concrete_case(c, rec['assign'], random.Random(1))
    print(st, label, detail)
    return 1 if st == 'fail' else 0


def known():
    out = set()
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        if l.startswith('finding:'): out.add(l.split()[2])
    return out


def check_property(prop, tier, seed):
    t0 = time.time()
    names = runner.contracts_for(prop)
    if not names:
        print(f"no contract for {prop}")
        return 2
    res = runner.run_many(names, tier, seed)
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    nviol = 0
    lines = []
    for n in names:
        r = res[n]
        for k, v in enumerate(r.get('violations', [])[:2]):
            p = os.path.join(EV, 'replay', f"{prop}-{n}-{k}.json")
            json.dump({'property': prop, 'contract': n, **v}, open(p, 'w'), indent=1)
            lines.append((f"obligation: {n}: {v['label']} ({v['how']})",
                          f"VIOLATION property={prop} replay={p}"))
            nviol += 1
        if not r.get('violations'):
            for k, u in enumerate(x for x in r.get('unreplayed', []) if not x['abstract']):
                p = os.path.join(EV, 'replay', f"{prop}-{n}-unreplayed-{k}.json")
                json.dump({'property': prop, 'contract': n, 'label': u['label'], 'assign': None,
                           'verifier_output': u}, open(p, 'w'), indent=1)
                lines.append((f"obligation: {n}: {u['label']} refuted, model not replayable",
                              f"VIOLATION property={prop} replay={p} no-failing-input-found"))
                nviol += 1
                break
    # known findings: a witness that is live and listed is reported as known, one that is live and not listed as a violation
    listed = known()
    for fid, (fp, what, fn) in api.FINDINGS.items():
        if fp != prop: continue
        try: live = fn()
        except Exception: live = False
        if live and fid in listed: print(f"KNOWN-FINDING: property={prop} {fid}: {what}")
        elif live:
            p = os.path.join(EV, 'replay', f"{prop}-finding-{fid}.json")
            json.dump({'property': prop, 'finding': fid, 'label': what}, open(p, 'w'), indent=1)
            lines.append((f"witness: {fid}: {what}", f"VIOLATION property={prop} replay={p}"))
            nviol += 1
    for a, b in lines:
        print(a)
        print(b)
    write_evidence(prop, tier, seed, names, res, nviol, time.time() - t0)
    for n in names:
        r = res[n]
        if r.get('crash'):
            print(f"undecided: {n}: {r['crash'][-300:]}")
        elif not r['proved'] and not r['violations']:
            print(f"note: {n}: " + ('proved within a list-length bound' if r['proved_bounded'] else
                                    f"undecided by the verifier ({r['unsupported'] or 'solver unknown / spurious model'}); "
                                    f"bounded stand-in: {r['sampled']} sampled runs of the real code"))
    obl = sum(o['n'] for r in res.values() for o in r.get('obl', {}).values())
    dis = sum(o['discharged'] for r in res.values() for o in r.get('obl', {}).values())
    print(f"{prop}: {len(names)} contracts, {dis}/{obl} obligations discharged, "
          f"{sum(r.get('sampled', 0) for r in res.values())} concrete runs, {time.time() - t0:.1f}s")
    return 1 if nviol else 0


def write_evidence(prop, tier, seed, names, res, nviol, wall):
    good = {n: r for n, r in res.items() if not r.get('crash')}
    proved = [n for n, r in good.items() if r['proved']]
    pb = [n for n, r in good.items() if r['proved_bounded']]
    und = [n for n in names if n not in proved and n not in pb]
    obl = sum(o['n'] for n in proved for o in good[n]['obl'].values())
    allobl = sum(o['n'] for r in good.values() for o in r['obl'].values())
    alldis = sum(o['discharged'] for r in good.values() for o in r['obl'].values())
    level = level_of(prop)
    be = {}
    for r in good.values():
        for k, v in r['backend'].items(): be[k] = be.get(k, 0) + v
    funcs = sorted({t for r in good.values() for t in r['touched']})
    stubs = sorted({t for r in good.values() for t in r['stubs']})
    libs = sorted({t for r in good.values() for t in r['lib']})
    cov = {
        'obligations': allobl, 'discharged': alldis,
        'checker_cmd': f"python3-vt check.py {prop} --tier {tier}",
        'trusted_base': ['pyvc (this verifier: AST semantics of Python, /verif/pyvc)', 'z3', 'cvc5 (second opinion)',
                         'assumed contracts of library functions listed under library_contracts_assumed',
                         'stand-ins listed under stubbed_callees'],
        'functions_under_contract': sorted({t for n in names for t in api.REG[n].targets}),
        'functions_interpreted': funcs,
        'stubbed_callees': stubs,
        'library_contracts_assumed': libs,
        'obligations_by_backend': be,
        'solver_seconds': round(sum(r['solver_s'] for r in good.values()), 2),
        'solver_queries': sum(r['solver_checks'] for r in good.values()),
        'paths': sum(r['paths'] for r in good.values()),
        'contracts': {n: {'status': 'proved' if n in proved else 'proved within bound' if n in pb else 'undecided, bounded stand-in',
                          'obligations': {k: [o['discharged'], o['n']] for k, o in good[n]['obl'].items()},
                          'bounds': good[n]['bounded'] if n in pb else [], 'functions': good[n]['touched'],
                          'unsupported': good[n]['unsupported'], 'unbounded_attempt': good[n]['unbounded_unsupported'],
                          'spurious_models': len(good[n]['spurious']),
                          'concrete_runs': good[n]['sampled'], 'wall_s': good[n]['wall']} for n in names if n in good},
        'crashed': {n: res[n]['crash'][-400:] for n in names if res[n].get('crash')},
        'proved_unbounded': len(proved), 'proved_bounded': len(pb), 'undecided': len(und),
        'obligations_proved_unbounded': obl,
        'evaluations': sum(r['sampled'] for r in good.values()),
        'distinct_nontrivial': sum(r['distinct'] for r in good.values()),
        'rule': 'concrete runs of the same contract text on the real code by CPython: inputs sampled from the '
                'contract\'s schemas (seeded); a run counts when every assumption holds and at least one check ran; '
                'distinct by the full input assignment. Bounded, never counted as proved.',
        'samples': [s for r in good.values() for s in r['samples'][:1]][:4] or ['none'],
        'explanation': 'Contracts in /verif/contracts are executed against the ASTs of /repo functions; every check is '
                       'an obligation discharged by SMT on every path.',
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, f'{prop}.json'), 'w') as f: json.dump(ev, f, indent=1)


ASSUMPTIONS = [
    'Python int/float arithmetic is treated as mathematical integers/reals; datetimes as integer microseconds without range overflow',
    'opaque identifier strings are compared for equality only; other string operations on them are uninterpreted',
    'the interpreter is single threaded; coroutines interleave only at awaits of user handlers, where the contract injects interference',
    'the system time zone is UTC where naive datetimes are converted',
    'logging calls have no effect; their arguments are evaluated',
    'hash/eq of library objects behave; no monkey-patching of the modules under verification',
]


def level_of(prop):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return 'proof'
