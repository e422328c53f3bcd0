"""Development helper: mkseed(id, property, file, old, new, needs, breaks, demo) -> seeded/<id>/."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mkseed(id, prop, edits, needs, breaks, demo):
    w = f'/tmp/mk.{id}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new in edits:
        s = open(f'{w}/{f}').read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(f'{w}/{f}', 'w').write(s.replace(old, new))
    d = subprocess.run(['git', '-C', w, 'diff'], check=True, capture_output=True, text=True).stdout
    assert d
    o = f'{V}/seeded/{id}'
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.py', 'w').write(demo.lstrip())
    open(o + '/demo.sh', 'w').write(
        '#!/bin/bash\n# exit 0: behaviour intact, nonzero: property broken (cwd: the repository)\n'
        'd=$(cd "$(dirname "$0")" && pwd)\n'
        'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH="$PWD"\n'
        'exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
    print('seed', id)
