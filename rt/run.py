"""python rt/run.py MODULE --tier quick|thorough --seed N --out FILE | --replay FILE"""
import sys
sys.dont_write_bytecode = True
import argparse
import importlib
import json
import os
import random
import time
import warnings

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
warnings.simplefilter('ignore')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('module', nargs='?')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--budget', type=float, default=120)
    ap.add_argument('--replay')
    a = ap.parse_args()
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.module, a.tier, a.seed, only = r['module'], r['tier'], r['seed'], r['index']
        a.budget = 600
    from rt import common
    t0 = time.time()
    res = dict(module=a.module, tier=a.tier, seed=a.seed, evaluations=0, distinct=0, samples=[], failures=[],
               complete=True)
    seen = set()
    try:
        m = importlib.import_module('rt.' + a.module)
        gen = m.cases(a.tier, random.Random(a.seed))
        for k, case in enumerate(gen):
            if only is not None and k != only:
                continue
            if time.time() - t0 > a.budget:
                res['complete'] = False
                break
            why = common.run_case(case)
            res['evaluations'] += 1
            h = hash(case.desc)
            if h not in seen:
                seen.add(h)
                if len(res['samples']) < 5 or (len(res['samples']) < 12 and k % 97 == 0):
                    res['samples'].append(case.desc[:400])
            if why is not None:
                res['failures'].append(dict(index=k, desc=case.desc, why=why, key=case.key))
                if sum(1 for f in res['failures'] if not f['key']) >= 5:
                    res['complete'] = False
                    break
    except Exception as e:
        import traceback
        res['failures'].append(dict(index=-1, desc='setting up the cases', key=None,
                                    why=f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-8)))
    res['distinct'] = len(seen)
    res['seconds'] = round(time.time() - t0, 2)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, indent=1)
    if a.replay:
        if not res['evaluations'] and not res['failures']:
            print('no such case')
        for f in res['failures']:
            print('FAILS:', f['desc'])
            print('  ', f['why'])
        if not res['failures']:
            print('passes')
        sys.exit(1 if res['failures'] else 0)
    if not a.out:
        for f in res['failures']:
            print('FAILS', f['index'], f['desc'], '\n    ', f['why'][-500:])
        print({k: v for k, v in res.items() if k not in ('samples', 'failures')})


main()
