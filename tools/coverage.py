"""which functions of /repo no contract names or executes: python3 tools/coverage.py [EVIDENCE-DIR]"""
import ast, glob, json, os, sys
ev = sys.argv[1] if len(sys.argv) > 1 else '/tmp/ev'
named, inl = set(), set()
def strings(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('functions', 'functions_under_contract') : collect(v, named)
            elif 'inlined' in k: collect(v, inl)
            else: strings(v)
    elif isinstance(x, list):
        for v in x: strings(v)
def collect(v, s):
    if isinstance(v, str): s.add(v)
    elif isinstance(v, list):
        for y in v: collect(y, s)
    elif isinstance(v, dict):
        for k, y in v.items(): s.add(k); collect(y, s)
for f in glob.glob(ev + '/*.json'): strings(json.load(open(f)))
norm = lambda s: s.split('records/')[-1].split('::')[-1].split(' ')[0]
both = {norm(x).replace('.<locals>', '') for x in named}, {norm(x).replace('.<locals>', '') for x in inl}
for f in sorted(glob.glob('/repo/records/**/*.py', recursive=True)):
    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef): walk(c, pre + c.name + '.')
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = pre + c.name
                if not any(q in b or any(x.endswith(q) for x in b) for b in both):
                    print(os.path.relpath(f, '/repo'), q, c.end_lineno - c.lineno + 1)
                walk(c, q + '.')
            elif isinstance(c, (ast.If, ast.Try)): walk(c, pre)
    walk(ast.parse(open(f).read()), '')
