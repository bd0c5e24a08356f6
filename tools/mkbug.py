"""mkbug.py SPEC.py: write seeded/<id>/ from a spec: ID, PROPERTY, NEEDS, BREAKS, EDITS
[(file, old, new)], DEMO (Python source, run with cwd /repo)."""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AVSIM_REPO', '/repo')
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = f"{VERIF}/seeded/{s['ID']}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(dir='/tmp/bugs')
    files = sorted({e[0] for e in s['EDITS']})
    for f in files:
        for side in 'ab':
            os.makedirs(os.path.dirname(f'{tmp}/{side}/{f}'), exist_ok=True)
            shutil.copy(f'{REPO}/{f}', f'{tmp}/{side}/{f}')
    for f, old, new in s['EDITS']:
        p = f'{tmp}/b/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (spec, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=tmp, capture_output=True, text=True).stdout
    open(f'{d}/patch.diff', 'w').write(r)
    shutil.rmtree(tmp)
    open(f'{d}/demo.sh', 'w').write(
        '#!/bin/bash\n# run with cwd /repo: exit 0 when the property holds here\n'
        'HERE="$(cd "$(dirname "$0")" && pwd)"\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TESTFLO_RUNNING=1 OPENMDAO_REPORTS=0\n'
        'SCRATCH="$(mktemp -d)"\ntrap \'rm -rf "$SCRATCH"\' EXIT\ncd "$SCRATCH" || exit 2\n'
        '/opt/venv/bin/python "$HERE/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.py', 'w').write(s['DEMO'].lstrip())
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
    print(s['ID'], len(r.splitlines()))
