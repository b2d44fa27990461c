"""plant(id, property, file, old, new, demo, needs, breaks): writes seeded/<id>"""
import difflib, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(id, prop, edits, demo, needs, breaks):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    out = ''
    for file, old, new in edits:
        src = open('/repo/' + file).read()
        assert src.count(old) == 1, (id, src.count(old))
        out += ''.join(difflib.unified_diff(src.splitlines(True), src.replace(old, new).splitlines(True), 'a/' + file, 'b/' + file))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
