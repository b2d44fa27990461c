"""are obligations refuted on the unrolled paths of the unchanged tree? (they should not be)"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True
import check_jobs as cj
import importlib
jobs, names = [], {}
props = sys.argv[1:] or [f'C{k:02}' for k in range(1, 21)]
for p in props:
    for mod in cj.contract_modules(p):
        for i, c in enumerate(importlib.import_module(mod).CONTRACTS):
            jobs.append((mod, i, 3, 80)); names[mod, i, 3] = c.name
for k, r in cj.run_jobs(jobs, 4000, 7).items():
    bad = [o['name'] for o in r['obligations'] if o['refuted']]
    if bad or r['error']:
        print(k, names[k], (r['error'] or '')[:100], bad, flush=True)
