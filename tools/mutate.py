"""Mutants of the package that pass its tests: which checks report them.

python3 tools/mutate.py make OUT [FILE...]     mutants that pass the tests, as patches in OUT
python3 tools/mutate.py check OUT [--verify] [PROPERTY...]   which of them the checks report (results in OUT/results.json)
"""
import ast
import copy
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
ALL = [f'C{i:02}' for i in range(1, 21)]
CMP = {ast.Eq: [ast.NotEq, ast.Is], ast.NotEq: [ast.Eq, ast.IsNot], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt],
       ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def variants(node):
    """replacements of one node"""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), ()):
            n = copy.deepcopy(node)
            n.ops = [o()]
            yield n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield n
        for k in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[k]
            yield n if len(n.values) > 1 else n.values[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield copy.deepcopy(node.operand)
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
        n = copy.deepcopy(node)
        n.op = ast.Sub() if isinstance(node.op, ast.Add) else ast.Add()
        yield n
        yield copy.deepcopy(node.left)
        yield copy.deepcopy(node.right)
    if isinstance(node, ast.Constant):
        v = node.value
        if v is True or v is False:
            yield ast.Constant(not v)
        elif isinstance(v, int):
            yield ast.Constant(v + 1)
            yield ast.Constant(v - 1)
        elif v is None:
            yield ast.Constant(False)
    if isinstance(node, ast.IfExp):
        yield copy.deepcopy(node.body)
        yield copy.deepcopy(node.orelse)
    if isinstance(node, ast.Call):
        if node.keywords:
            for k in range(len(node.keywords)):
                n = copy.deepcopy(node)
                del n.keywords[k]
                yield n
        if len(node.args) >= 2:
            n = copy.deepcopy(node)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            yield n
            n = copy.deepcopy(node)
            n.args.pop()
            yield n
        if len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], (ast.GeneratorExp, ast.Starred)):
            yield copy.deepcopy(node.args[0])
    if isinstance(node, ast.Slice):
        for f in 'lower', 'upper', 'step':
            if getattr(node, f) is not None:
                n = copy.deepcopy(node)
                setattr(n, f, None)
                yield n
    if isinstance(node, ast.Starred):
        pass
    if isinstance(node, ast.comprehension) and node.ifs:
        n = copy.deepcopy(node)
        n.ifs = []
        yield n
    if isinstance(node, (ast.If, ast.While)):
        n = copy.deepcopy(node)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        yield n
        if isinstance(node, ast.If):
            n = copy.deepcopy(node)
            n.test = ast.Constant(False)
            yield n
            n = copy.deepcopy(node)
            n.test = ast.Constant(True)
            yield n
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield ast.Pass()
    if isinstance(node, (ast.Break, ast.Continue)):
        yield ast.Pass()
        yield ast.Continue() if isinstance(node, ast.Break) else ast.Break()
    if isinstance(node, ast.ExceptHandler) and node.type is not None:
        n = copy.deepcopy(node)
        n.type = ast.Name('Exception', ast.Load())
        yield n
        n = copy.deepcopy(node)
        n.type = ast.Name('KeyError', ast.Load())
        yield n
    if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        yield ast.Return(ast.Constant(None))
    if isinstance(node, ast.FunctionDef) and node.decorator_list:
        pass


def mutants(source):
    """(line, source) of every mutant: one node changed, the rest of the text as it was"""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = source.encode()
    fstr = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            fstr |= {id(x) for x in ast.walk(n)}
        # annotations and doc strings do not matter
        for a in ('annotation', 'returns'):
            if getattr(n, a, None) is not None:
                fstr |= {id(x) for x in ast.walk(getattr(n, a))}
    for n in ast.walk(tree):
        if id(n) in fstr or not hasattr(n, 'lineno') and not isinstance(n, ast.comprehension):
            continue
        if isinstance(n, ast.comprehension):
            continue
        for v in variants(n):
            a = starts[n.lineno - 1] + n.col_offset
            b = starts[n.end_lineno - 1] + n.end_col_offset
            ast.fix_missing_locations(v)
            text = ast.unparse(v)
            if isinstance(n, ast.stmt) or isinstance(n, ast.ExceptHandler):
                pad = '\n' + ' ' * n.col_offset
                text = text.replace('\n', pad)
            elif isinstance(n, ast.expr) and not isinstance(v, (ast.Constant, ast.Name)) and not isinstance(n, ast.Slice):
                text = f'({text})'
            out = raw[:a] + text.encode() + raw[b:]
            try:
                ast.parse(out.decode())
            except SyntaxError:
                continue
            yield n.lineno, out.decode()


def copy_repo(where):
    shutil.copytree(REPO, where, ignore=shutil.ignore_patterns('.git', '__pycache__', '.pytest_cache'))


def tests_pass(where):
    try:
        r = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=where,
                           capture_output=True, timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def make(out, files, limit=None):
    os.makedirs(out, exist_ok=True)
    jobs = []
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        seen = set()
        for line, text in mutants(src):
            if text not in seen and text != src:
                seen.add(text)
                jobs.append((f, line, src, text))
    print(len(jobs), 'mutants')
    base = tempfile.mkdtemp(prefix='mutants.')
    free = []
    for k in range(8):
        copy_repo(f'{base}/{k}')
        free.append(f'{base}/{k}')
    kept = []

    def one(j):
        f, line, src, text = j
        d = free.pop()
        try:
            with open(os.path.join(d, f), 'w') as h:
                h.write(text)
            ok = tests_pass(d)
            with open(os.path.join(d, f), 'w') as h:
                h.write(src)
            if ok:
                kept.append(j)
        finally:
            free.append(d)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    shutil.rmtree(base)
    kept.sort(key=lambda j: (j[0], j[1]))
    for n, (f, line, src, text) in enumerate(kept):
        diff = ''.join(difflib.unified_diff(src.splitlines(True), text.splitlines(True), 'a/' + f, 'b/' + f))
        with open(f'{out}/{n:04}.diff', 'w') as h:
            h.write(diff)
    print(len(kept), 'pass the tests')


def check(out, props, verify):
    path = f'{out}/results.json'
    results = json.load(open(path)) if os.path.exists(path) else {}
    mode = 'verify' if verify else 'rt'
    todo = []
    for fn in sorted(os.listdir(out)):
        if fn.endswith('.diff'):
            r = results.setdefault(fn, {})
            if any(v == 1 for v in r.values()):
                continue
            todo += [(fn, p) for p in props if f'{mode}:{p}' not in r]
    print(len(todo), 'runs')
    base = tempfile.mkdtemp(prefix='mutcheck.')
    dirs = {}

    def one(job):
        fn, p = job
        if any(v == 1 for v in results[fn].values()):
            return
        d = f'{base}/{fn}'
        if fn not in dirs:
            return
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=f'{base}/ev', VERIF_TIER='quick', VERIF_SEED='1')
        try:
            r = subprocess.run(['python3-vt', f'{HERE}/check.py', p, '--only', mode], env=env, capture_output=True, timeout=900, text=True)
            results[fn][f'{mode}:{p}'] = r.returncode
            if 'VIOLATION' in r.stdout:
                results[fn].setdefault('how', []).append([l for l in r.stdout.splitlines() if 'VIOLATION' in l][0])
        except subprocess.TimeoutExpired:
            results[fn][f'{mode}:{p}'] = 'timeout'
    os.makedirs(f'{base}/ev')
    names = sorted({fn for fn, _ in todo})
    for k in range(0, len(names), 40):
        batch = names[k:k + 40]
        for fn in batch:
            copy_repo(f'{base}/{fn}')
            subprocess.run(['patch', '-p1', '-s', '-i', os.path.abspath(f'{out}/{fn}')], cwd=f'{base}/{fn}')
            dirs[fn] = 1
        with ThreadPoolExecutor(int(os.environ.get('JOBS', '8' if not verify else '3'))) as ex:
            list(ex.map(one, [j for j in sorted(todo, key=lambda j: j[1]) if j[0] in batch]))
        for fn in batch:
            shutil.rmtree(f'{base}/{fn}')
            dirs.pop(fn)
        json.dump(results, open(path, 'w'), indent=1)
        print(k + len(batch), 'of', len(names), 'silent so far:', sum(not any(v == 1 for v in results[f].values()) for f in names[:k + 40]), flush=True)
    shutil.rmtree(base)


if __name__ == '__main__':
    cmd, out, *rest = sys.argv[1:]
    if cmd == 'make':
        files = rest or [os.path.relpath(os.path.join(d, f), REPO) for d, _, fs in os.walk(REPO + '/records') for f in fs if f.endswith('.py')]
        make(out, sorted(files))
    else:
        verify = '--verify' in rest
        check(out, [r for r in rest if r != '--verify'] or ALL, verify)
