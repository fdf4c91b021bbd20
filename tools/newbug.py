"""Helper: newbug(id, prop, needs, breaks, edits=[(file, old, new)], demo=python source)."""
import json, os, shutil, subprocess
H = '/verif'
WT = '/tmp/plantwt'
def newbug(id, prop, needs, breaks, edits, demo):
    d = os.path.join(H, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(WT):
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', WT])
    subprocess.check_call(['git', '-C', WT, 'checkout', '-q', '--detach', subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()])
    subprocess.check_call(['git', '-C', WT, 'checkout', '-q', '--', '.'])
    for f, a, b in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', '-C', WT, 'diff'], text=True)
    assert diff
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    subprocess.check_call(['git', '-C', WT, 'checkout', '-q', '--', '.'])
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip())
    if 'demolib' in demo:
        shutil.copy(os.path.join(H, 'tools', 'demolib.py'), d)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# exit 0: the property holds; nonzero: broken\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    return d
