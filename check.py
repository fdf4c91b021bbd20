#!/usr/bin/env python3
"""
check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--shards N]

Exit 0: the property held on everything explored.
Exit 1: a violation was found; prints 'VIOLATION property=<id> replay=<path>'.
Exit 2: the check could not be carried out.
"""
import argparse
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vsim import build                                    # noqa: E402
from vsim.util import REPO, VERIF, derive, eprint, jdump   # noqa: E402

PY = os.environ.get('VSIM_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(PY):
    PY = sys.executable


VARIANT = {'P13': 'thr', 'P14': 'mem', 'P15': 'mem'}


def environ(hashseed, mpl):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'OMP_', 'OPENBLAS', 'MKL', 'RIPTIDE'))}
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=mpl,
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', TZ='UTC', LC_ALL='C.UTF-8', PYTHONWARNINGS='ignore')
    return e


def spawn(cfg, hashseed, mpl, err):
    return subprocess.Popen([PY, '-B', os.path.join(VERIF, 'vsim', 'worker.py'), json.dumps(cfg)],
                            env=environ(hashseed, mpl), cwd=VERIF, stdin=subprocess.DEVNULL,
                            stdout=err, stderr=err, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def wait_all(procs, limit):
    end = time.time() + limit
    for p in procs:
        try:
            p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            stop(p)
            p.wait()


def prepare_mpl(tmp):
    """One font cache shared by all interpreters of this check."""
    mpl = os.path.join(tmp, 'mpl')
    os.mkdir(mpl)
    for src in (os.environ.get('MPLCONFIGDIR') or '', os.path.expanduser('~/.cache/matplotlib')):
        if src and os.path.isdir(src):
            for n in os.listdir(src):
                if n.startswith('fontlist'):
                    try:
                        shutil.copy(os.path.join(src, n), mpl)
                    except OSError:
                        pass
    if not any(n.startswith('fontlist') for n in os.listdir(mpl)):
        subprocess.run([PY, '-B', '-c', 'import matplotlib.font_manager'], env=environ(0, mpl),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    return mpl


def do_replay(pid, path, libdir, mpl, tmp, hashseed):
    out = os.path.join(tmp, 'replay.json')
    if os.path.exists(out):
        os.unlink(out)
    with open(os.path.join(tmp, 'replay.err'), 'wb') as err:
        p = spawn({'mode': 'replay', 'prop': pid, 'path': path, 'out': out, 'libdir': libdir}, hashseed, mpl, err)
        wait_all([p], 300)
    if not os.path.exists(out):
        with open(os.path.join(tmp, 'replay.err')) as f:
            eprint(f.read()[-3000:])
        return None
    with open(out) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int, default=0)
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    tmp = tempfile.mkdtemp(prefix='vsimcheck.')
    shm = os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK)
    scratch = tempfile.mkdtemp(prefix='vsim.', dir='/dev/shm' if shm else None)
    os.environ['VSIM_SCRATCH'] = scratch
    rc = 2
    try:
        rc = run(a, pid, tmp, t0)
    except build.BuildError as e:
        eprint('cannot build: %s' % e)
        rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(a, pid, tmp, t0):
    from vsim.engine import known_findings
    libdir = build.build_libcpp(PY, variant=VARIANT.get(pid, ''))
    mpl = prepare_mpl(tmp)
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        v = do_replay(pid, os.path.abspath(a.replay), libdir, mpl, tmp, rec.get('hashseed', 0))
        if v is None:
            return 2
        kf = known_findings(pid)
        v = [x for x in v if x['sig'] not in kf] or v
        if not v:
            print('replay: no violation')
            return 0
        print(v[0]['msg'])
        print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        return 1
    n = a.shards or min(8, os.cpu_count() or 1)
    soft = {'quick': 300, 'thorough': 3000}[a.tier]
    limit = {'quick': 500, 'thorough': 4500}[a.tier]
    procs, outs, errs = [], [], []
    for me in range(n):
        out = os.path.join(tmp, 'shard%d.json' % me)
        ef = open(os.path.join(tmp, 'shard%d.err' % me), 'wb')
        hs = derive(a.seed, 'hash', me) % 4294967295
        procs.append(spawn({'mode': 'shard', 'prop': pid, 'tier': a.tier, 'seed': a.seed, 'n': n, 'me': me, 'out': out,
                            'soft': soft, 'libdir': libdir}, hs, mpl, ef))
        outs.append(out)
        errs.append(ef)
    wait_all(procs, limit)
    res = []
    for me, o in enumerate(outs):
        errs[me].close()
        if os.path.exists(o):
            with open(o) as f:
                res.append(json.load(f))
        else:
            with open(errs[me].name, errors='replace') as f:
                eprint('shard %d gave no result:\n%s' % (me, f.read()[-3000:]))
    return report(a, pid, tmp, t0, res, n, libdir, mpl)


def report(a, pid, tmp, t0, res, n, libdir, mpl):
    from vsim.engine import known_findings
    import importlib
    kf = known_findings(pid)
    st, fc, known = collections.Counter(), collections.Counter(), collections.Counter()
    inter, states, samples, errors, digests = set(), set(), [], [], {}
    sim_time = 0.0
    viols = []
    for r in res:
        st.update(r['stats'])
        fc.update(r['faults'])
        known.update(r['known'])
        inter.update(r['inter'])
        states.update(r['states'])
        samples += r['samples'][:1]
        errors += r['errors']
        sim_time += r['sim_time']
        digests.update(r['digests'])
        for v in r['violations']:
            v['hashseed'] = r['hashseed']
            viols.append(v)
    units = sum(r['units'] for r in res)
    wall = time.time() - t0
    meta = json.loads(subprocess.run([PY, '-B', '-c', (
        'import sys,json;sys.path.insert(0,%r);sys.dont_write_bytecode=True\n'
        'import importlib;p=importlib.import_module("vsim.props.%s")\n'
        'print(json.dumps({k:getattr(p,k,None) for k in ("RULE","LEVEL","ASSUME","REAL","STUB","UNITS","MEASURE")}))')
        % (VERIF, pid.lower())], capture_output=True, text=True, cwd=VERIF).stdout or '{}')
    mism = [u for u in {k.split(':')[1] for k in digests}
            if 'own:' + u in digests and 'twin:' + u in digests and digests['own:' + u] != digests['twin:' + u]]
    both = [u for u in {k.split(':')[1] for k in digests} if 'own:' + u in digests and 'twin:' + u in digests]
    skips = {k: v for k, v in st.items() if k.startswith('skip: ')}
    out_v = []
    rc = 0
    if viols:
        viols.sort(key=lambda v: v['unit'])
        rc, out_v = handle_violations(a, pid, tmp, viols, libdir, mpl)
    cov = {
        'evaluations': st['specs'], 'distinct_nontrivial': len(inter) + len(states),
        'rule': meta.get('RULE') or '', 'samples': samples[:8],
        'units': units, 'units_planned': (meta.get('UNITS') or {}).get(a.tier),
        'simulated_executions': st['executions'], 'simulated_steps': st['steps'],
        'scheduling_decisions': st['branches'],
        'distinct_interleavings': len(inter), 'distinct_states': len(states),
        'interleaving_measure': meta.get('MEASURE') or
        'hash of the sequence (process, operation, file) of a run, or of the schedule decisions',
        'runs_per_hour': int(st['executions'] / max(wall, 1e-3) * 3600),
        'seeds_per_hour': int(st['specs'] / max(wall, 1e-3) * 3600),
        'simulated_seconds': round(sim_time, 3), 'faults_injected': dict(fc),
        'counters': {k: v for k, v in sorted(st.items()) if not k.startswith('skip: ')},
        'skipped': skips,
        'real_components': meta.get('REAL') or '', 'stubbed_components': meta.get('STUB') or '',
        'determinism': {'units_run_twice_with_different_hash_seeds': len(both), 'mismatches': len(mism)},
        'known_findings_seen': dict(known), 'shards': n,
    }
    ev = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': meta.get('LEVEL') or 'exploration',
          'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'assumptions': meta.get('ASSUME') or [],
          'violations': out_v}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    jdump(ev, os.path.join(VERIF, 'evidence', pid + '.json'))
    for sig, d in sorted(kf.items()):
        if known.get(sig):
            print('KNOWN-FINDING: property=%s %s (seen %d times)' % (pid, d['what'], known[sig]))
        else:
            print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
    print('%s %s: %d executions, %d specs, %d units, %d distinct interleavings, faults %s, %.1f s' % (
        pid, a.tier, st['executions'], st['specs'], units, len(inter), dict(fc), time.time() - t0))
    for e in errors[:3]:
        eprint(e)
    if mism:
        eprint('note: %d of %d units behave differently under another hash seed' % (len(mism), len(both)))
    if rc:
        return rc
    if errors or len(res) < n:
        eprint('%d harness errors, %d of %d shards answered' % (len(errors), len(res), n))
        return 2
    if st['specs'] < 1 or (st['skipped executions'] > 0.8 * max(1, st['specs'])):
        eprint('too few executions decided anything: %s' % skips)
        return 2
    return 0


def handle_violations(a, pid, tmp, viols, libdir, mpl):
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for k, v in enumerate(viols[:4]):
        src = os.path.join(tmp, 'viol%d.json' % k)
        with open(src, 'w') as f:
            json.dump(v, f)
        mo = os.path.join(tmp, 'min%d.json' % k)
        budget = 0 if os.environ.get('VSIM_NOSHRINK') else 60 if a.tier == 'quick' else 180
        with open(os.path.join(tmp, 'min.err'), 'wb') as err:
            p = spawn({'mode': 'minimise', 'prop': pid, 'path': src, 'out': mo, 'budget': budget, 'libdir': libdir},
                      v['hashseed'], mpl, err)
            wait_all([p], budget + 100)
        cands = []
        if os.path.exists(mo):
            with open(mo) as f:
                m = json.load(f)
            if m['spec'] is not None:
                cands.append((m['spec'], m['violation'], m['tried']))
        cands += [(v['spec'], v['violation'], 0), (v['orig'], v['violation'], 0)]
        for spec, vio, tried in cands:
            path = os.path.join(rdir, '%s-%s-%d-%d.json' % (pid, a.tier, a.seed, k))
            jdump({'property': pid, 'seed': a.seed, 'unit': v['unit'], 'hashseed': int(v['hashseed'] or 0),
                   'violation': vio, 'spec': spec, 'original_spec': v['orig'], 'shrink_attempts': tried,
                   'how': 'python3 check.py %s --replay %s' % (pid, path)}, path)
            for _ in range(2):
                rv = do_replay(pid, path, libdir, mpl, tmp, int(v['hashseed'] or 0))
                if rv:
                    break
            if rv:
                print('violation: %s' % vio['msg'])
                print('VIOLATION property=%s replay=%s' % (pid, path))
                return 1, [{'msg': vio['msg'], 'sig': vio['sig'], 'replay': path}]
        eprint('a violation did not reproduce: %s' % v['violation']['msg'])
    return 2, []


if __name__ == '__main__':
    main()
