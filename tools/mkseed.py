"""Development aid: creates seeded/<id>/ from a list of replacements. mk(id, prop, [(file, old, new)], needs, breaks, demo)"""
import json, os, subprocess, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(i, prop, edits, needs, breaks, demo):
    patch = ''
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open('/repo/src/jpt/' + f).read()
        assert s.count(old) == 1, (i, f, s.count(old))
        files[f] = s.replace(old, new)
    for f, s in files.items():
        with tempfile.NamedTemporaryFile('w', suffix='.x', delete=False) as t:
            t.write(s)
        r = subprocess.run(['diff', '-u', '--label', 'a/src/jpt/' + f, '--label', 'b/src/jpt/' + f, '/repo/src/jpt/' + f, t.name],
                           capture_output=True, text=True)
        os.unlink(t.name)
        patch += f'diff --git a/src/jpt/{f} b/src/jpt/{f}\n' + r.stdout
    d = f'{HERE}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\n# cwd: the repository. Exit 0: property holds on this input.\n'
        'export PYTHONPATH="$PWD/src" PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write(demo)
    print('made', i)
