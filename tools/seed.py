#!/usr/bin/env python3
"""tools/seed.py [ID...] [--check]: confirms planted bugs in scratch copies of /repo: the patch applies, the stable
tests pass, the demonstration passes without and fails with it; --check also runs the property's check against it"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(SEEDED))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return r.returncode, r.stdout


def one(i):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        demo = os.path.join(tmp, 'demo')
        shutil.copytree(d, demo)
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1')
        out = []
        rc, o = sh(f'bash {demo}/demo.sh', repo, env)
        out.append('demo clean ok' if rc == 0 else 'DEMO FAILS ON CLEAN ' + o[-300:])
        rc, o = sh(f'git apply {demo}/patch.diff', repo)
        if rc:
            return i, meta, ['PATCH DOES NOT APPLY ' + o]
        rc, o = sh(f'{PY} -m pytest -q -x tests -p no:cacheprovider', repo, env)
        out.append('tests ok' if rc == 0 else 'TESTS FAIL ' + o[-600:])
        rc, o = sh(f'bash {demo}/demo.sh', repo, env)
        out.append('demo detects' if rc else 'DEMO PASSES WITH BUG')
        if '--check' in sys.argv:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=os.path.join(tmp, 'ev'))
            rc, o = sh(f'python3-vt check.py {meta["property"]}', HERE, env)
            v = [l for l in o.splitlines() if 'VIOLATION' in l or 'failed obligation' in l or 'fails:' in l]
            out.append(f'check rc={rc} ' + ' | '.join(x[:150] for x in v[-4:]))
        return i, meta, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with ThreadPoolExecutor(2 if '--check' in sys.argv else 6) as ex:
    for i, m, o in ex.map(one, ids):
        print(i, m['property'], '; '.join(o), flush=True)
