"""Write a planted bug: mkplant.py SPEC.py, where SPEC defines ID, PROPERTY,
NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source) [, FILES]."""
import json, os, runpy, subprocess, sys, tempfile, shutil
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = '/verif/seeded/' + s['ID']
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='mkplant_')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (tmp, tmp), shell=True)
    for f, old, new in s['EDITS']:
        p = os.path.join(tmp, f)
        t = open(p, newline='').read()
        assert t.count(old) == 1, (s['ID'], f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', tmp, 'diff', '--src-prefix=a/', '--dst-prefix=b/'])
    open(d + '/patch.diff', 'wb').write(diff)
    shutil.rmtree(tmp)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds, nonzero: it does not
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MDP_DISABLE_SHOGUN=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
export DEMO_TMP="$T" TMPDIR="$T"
timeout -k 5 %d "$PY" -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
''' % s.get('TIMEOUT', 120))
    open(d + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
    json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    print(s['ID'], len(diff))
