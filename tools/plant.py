#!/usr/bin/env python3
"""
tools/plant.py ID... [--check] [--no-tests]: validate planted changes (patch applies, builds, tests pass,
demo fails with it and passes without it) and optionally run the property's quick check against each.
Works on /repo's working tree and always restores it.
"""
import json, os, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout
def demo(d):
    import signal, tempfile
    with tempfile.TemporaryFile('w+') as out:
        p = subprocess.Popen(['bash', d + '/demo.sh'], cwd=REPO, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(300)
        except subprocess.TimeoutExpired:
            rc = 124
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait(); out.seek(0)
        return rc, out.read()
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(H, 'seeded')))
    docheck, tests = '--check' in sys.argv, '--no-tests' not in sys.argv
    only = '--only-check' in sys.argv
    global REPO
    if only:            # on a copy: /repo stays as it is
        REPO = '/tmp/plantcopy'
        sh('rm -rf /tmp/plantcopy; cp -a /repo /tmp/plantcopy')
        os.environ['VSIM_REPO'] = REPO
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo not clean'
    for i in ids:
        d = os.path.join(H, 'seeded', i)
        out = []
        meta = json.load(open(os.path.join(d, 'meta.json')))
        r = sh('git -C %s apply %s/patch.diff' % (REPO, d))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout); continue
        try:
            if not only:
                ok, o = build()
                out.append('build %s' % ok)
                if tests:
                    t = sh('bash /opt/vp/test.sh /tmp/plant.out.json').stdout
                    out.append('tests: ' + t.strip().splitlines()[-1])
                rc, o = demo(d)
                out.append('demo with: %d' % rc)
                if rc == 0 or '-v' in sys.argv: out.append(o[-1500:])
            if docheck or only:
                t0 = time.time()
                r = sh('python3 check.py %s --tier quick' % meta['property'], cwd=H)
                line = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'violation'))]
                out.append('CHECK %s rc=%d %.0fs %s' % (meta['property'], r.returncode, time.time() - t0, ' / '.join(l[:300] for l in line)))
                if r.returncode != 1: out.append(r.stdout[-600:])
                cf = os.path.join(H, 'tools', 'catches.json')
                c = json.load(open(cf)) if os.path.exists(cf) else {}
                c[i] = r.returncode == 1
                json.dump(c, open(cf, 'w'), indent=0, sort_keys=True)
        finally:
            sh('git -C %s checkout -- . && git -C %s clean -fdq' % (REPO, REPO))
        if not only:
            build()
            rc, o = demo(d)
            out.append('demo without: %d' % rc)
            if rc: out.append(o[-1500:])
        print(i, '|', ' | '.join(out), flush=True)
    assert not sh('git -C %s status --porcelain' % REPO).stdout.strip(), 'repo not clean'
    if only:
        sh('rm -rf /tmp/plantcopy')
main()
