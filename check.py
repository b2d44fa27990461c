#!/usr/bin/env python3
"""python3-vt check.py PROPERTY [--tier quick|thorough]

Decides one property for the code in /repo's working tree: verifies the contracts of contracts/<property>.py against
the source, and cross-checks them on enumerated inputs of the real code (rt/<property>.py).
"""
import sys
sys.dont_write_bytecode = True
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    # the same order of everything on every run, and so the same questions to the solver
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, *sys.argv])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from check_jobs import contract_modules, proved, run_jobs
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
REPO = os.environ.get('VERIF_REPO', '/repo')
GONE = 'attributes the contracts speak of are gone, and others took their place:'
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


def known_findings():
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            w = line.split()
            if len(w) > 2 and w[0] == 'finding:' and w[1].startswith('property=') and w[2].startswith('key='):
                out.setdefault(w[1][9:], {})[w[2][4:]] = ' '.join(w[3:])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--self-test', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', choices=['verify', 'rt'])
    a = ap.parse_args()
    if a.self_test:
        sys.exit(subprocess.call([sys.executable, '-B', os.path.join(HERE, 'selftest.py')]))
    t0 = time.time()
    prop, tier = a.property, 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    out_dir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(out_dir, 'replay'), exist_ok=True)
    findings = known_findings().get(prop, {})

    # --- the real code, on enumerated inputs
    rt_file = os.path.join(out_dir, f'{prop}.rt.json')
    rt_budget = 150 if tier == 'quick' else 400
    rt_proc = None
    if a.only != 'verify':
        if os.path.exists(rt_file):
            os.unlink(rt_file)
        rt_proc = subprocess.Popen([PY, '-B', os.path.join(HERE, 'rt', 'run.py'), prop.lower(), '--tier', tier, '--seed', str(seed),
                                    '--out', rt_file, '--budget', str(rt_budget)], cwd=HERE,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)

    # --- the contracts
    results, errors, listing = [], [], []
    if a.only != 'rt':
        ctx = mp.get_context('fork')
        q = ctx.Queue()

        def names(q):
            try:
                import importlib
                out, assumes = [], []
                for mod in contract_modules(prop):
                    m = importlib.import_module(mod)
                    out += [(mod, i, c.name, list(c.functions)) for i, c in enumerate(m.CONTRACTS)]
                    assumes += [x for x in getattr(m, 'ASSUMES', []) if x not in assumes]
                from pyvc.known import renamed
                if renamed():
                    assumes.append(f'{GONE} {renamed()}')
                q.put((out, assumes, None))
            except BaseException as e:
                q.put(([], [], f'{type(e).__name__}: {e}'))
        p = ctx.Process(target=names, args=(q,))
        p.start()
        listing, assumes, err = q.get(timeout=120)
        p.join()
        if err:
            errors.append(f'the contracts cannot be set up: {err}')
        deadline = 320 if tier == 'quick' else 420
        res = run_jobs([(m, i, None, deadline) for m, i, _, _ in listing], 560 if tier == 'quick' else 620, 7)
        retry = []
        for m, i, name, fns in listing:
            r = res[m, i, None]
            r['contract'], r['functions'] = name, r['functions'] or fns
            results.append(r)
            if not proved(r):
                retry.append((m, i, 3, 150))
        # which undischarged obligations fail without any abstraction of loops?
        again = run_jobs(retry, min(230, t0 + 820 - time.time()), 7) if retry else {}
        for (m, i, name, _), r in zip(listing, results):
            b = again.get((m, i, 3))
            if b is not None:
                r['unrolled'] = b
    else:
        assumes = []
    rt = None
    if rt_proc is not None:
        try:
            _, err_text = rt_proc.communicate(timeout=rt_budget + 60)
        except subprocess.TimeoutExpired:
            rt_proc.kill()
            err_text = 'timeout'
        try:
            with open(rt_file) as f:
                rt = json.load(f)
            os.unlink(rt_file)
        except Exception:
            rt = dict(evaluations=0, distinct=0, samples=[], complete=False, failures=[dict(
                index=-1, desc='running the cases', why='the process running the real code died: ' +
                (err_text or '')[-2000:], key=None)])

    # --- verdict
    violations, notes = [], []
    if rt:
        seen = set()
        for f in rt['failures']:
            if f['key'] and f['key'] in findings:
                if f['key'] not in seen:
                    seen.add(f['key'])
                    print(f'KNOWN-FINDING: property={prop} {findings[f["key"]]}')
            else:
                violations.append(('input', f))
    refuted = []
    for r in results:
        if proved(r):
            continue
        refs = [o for o in r['obligations'] if o['refuted_exactly']]
        src = 'the loop-free part of its paths'
        if not refs and 'unrolled' in r and r['unrolled']['error'] in (None, '', 'unsupported: out of time'):
            # (a refutation stands by itself: that there was no time for other paths does not matter)
            refs = [o for o in r['unrolled']['obligations'] if o['refuted_exactly']]
            src = 'its paths of at most 3 iterations per loop'
        for o in refs:
            refuted.append(dict(contract=r['contract'], functions=r['functions'], obligation=o['name'], found_in=src,
                                counterexample=o['model']))
    gone = [x for x in assumes if x.startswith(GONE)]
    if gone:
        # no contract can be held against code that keeps its state in other attributes
        errors += gone
    else:
        violations += [('obligation', d) for d in refuted]

    obligations = sum(o['proved'] + o['refuted'] + o['unknown'] for r in results for o in r['obligations'])
    discharged = sum(o['proved'] for r in results for o in r['obligations'])
    n_proved = sum(1 for r in results if proved(r))
    not_proved = [dict(contract=r['contract'], why=r['error'] or [o['name'] for o in r['obligations'] if o['refuted'] or
                                                                  o['unknown']] or 'no complete path')
                  for r in results if not proved(r)]
    replay = os.path.join(out_dir, 'replay', f'{prop}.json')
    backends = {}
    for r in results:
        for o in r['obligations']:
            for b in o['backends']:
                backends[b] = backends.get(b, 0) + 1
    from trusted import TRUSTED
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd=f'cd /verif && python3-vt check.py {prop} --tier {tier}',
            trusted_base=TRUSTED,
            contracts=len(results), contracts_proved=n_proved, contracts_not_proved=not_proved,
            functions_under_contract=sorted({f for r in results for f in r['functions']}),
            functions_inlined=sorted({f for r in results for f in r['inlined']}),
            backends=backends, solver_s=round(sum(r['solver_s'] for r in results), 2),
            solver_checks=sum(r['solver_checks'] for r in results),
            paths=sum(r['paths'] for r in results),
            loops_with_invariants=sum(1 for r in results for x in r['loops'] if x['invariants']),
            per_contract=[dict(contract=r['contract'], proved=bool(proved(r)), paths=r['paths'],
                               complete_paths=r['complete_paths'], seconds=r['seconds'],
                               obligations=[dict(name=o['name'], proved=o['proved'], refuted=o['refuted'],
                                                 unknown=o['unknown'], s=o['seconds']) for o in r['obligations']])
                          for r in results],
            bounded_cross_check=dict(
                label='bounded: the contracts run against the real code on enumerated inputs; not counted as proof',
                evaluations=rt['evaluations'], distinct_inputs=rt['distinct'], complete=rt['complete'],
                samples=rt['samples'][:8]) if rt else None,
            evaluations=rt['evaluations'] if rt else 0,
        ),
        assumptions=assumes, wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(out_dir, f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    print(f'{prop}: {n_proved}/{len(results)} contracts proved, {discharged}/{obligations} obligations discharged, '
          f'{rt["evaluations"] if rt else 0} run-time cases, {time.time() - t0:.0f} s')
    for d in not_proved:
        print('  not proved:', d['contract'], '-', str(d['why'])[:300])
    for e in errors:
        print('  error:', e)
    if violations:
        inputs = [v for k, v in violations if k == 'input']
        obs = [v for k, v in violations if k == 'obligation']
        data = dict(property=prop, module=prop.lower(), tier=tier, seed=seed, failed_obligations=obs,
                    not_proved=not_proved)
        if inputs:
            data.update(index=inputs[0]['index'], input=inputs[0]['desc'], why=inputs[0]['why'], more=inputs[1:],
                        rerun=f'{PY} {HERE}/rt/run.py --replay {replay}')
        else:
            data.update(verifier_output=obs)
        with open(replay, 'w') as f:
            json.dump(data, f, indent=1)
        for v in inputs[:3]:
            print('  fails:', v['desc'][:300])
            print('        ', v['why'][:1500])
        for o in obs[:5]:
            print(f'  failed obligation: {o["contract"]}: {o["obligation"]} ({o["found_in"]})')
        print(f'VIOLATION property={prop} replay={replay}' + ('' if inputs else ' no-failing-input-found'))
        sys.exit(1)
    if not_proved or errors:
        print('  not everything is proved of this tree; the bounded cross-check found no violation')
    sys.exit(0)


main()
