import os

from .. import core, faults as F, scenario as S
from ..bench import snapshot
from ..engine import Skip, Violation, good_scenario
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, digest, outcome

UNITS = {'quick': 40, 'thorough': 1600}
PER_UNIT = {'quick': 7, 'thorough': 14}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario; pipeline runs (with errors, crashes, other schedules) and single-file searches '
        'are watched operation by operation, and everything outside the output directory is compared (content, '
        'modification time, mode) before and after; non-trivial = distinct interleavings')
MUT = ('write', 'truncate', 'unlink', 'remove', 'rename', 'replace', 'mkdir', 'rmdir', 'link', 'symlink', 'chmod',
       'utime')


def plan(ctx, r, tier, unit):
    plots = unit % 10 == 4
    scn = good_scenario(ctx, r, plots=plots, small=plots, cap=4, max_trials=5, want_peaks=r.random() < 0.9)
    base, _ = ctx.baseline(scn)
    occ = F.occurrences(base.events)
    for k in range(3 if plots else PER_UNIT[tier]):
        fl = []
        x = r.random()
        if x < 0.35:
            f = F.kill_main(r, occ)
            fl += [f] if f else []
        elif x < 0.75:
            for _ in range(r.randint(1, 2)):
                f = F.error(r, occ)
                fl += [f] if f else []
        yield {'scn': scn, 'prog': 'rffa', 'seed': r.getrandbits(32), 'faults': fl, 'cwdout': r.random() < 0.3,
               'policy': core.random_policy(r)}
    for k in range(2):
        fl = []
        if r.random() < 0.4:
            fl.append({'at': {'op': r.choice(['open', 'read']), 'rel': 'in/*', 'nth': r.randint(1, 3)},
                       'act': {'t': 'errno', 'e': 5}})
        yield {'scn': scn, 'prog': 'rseek', 'trial': r.randrange(len(scn['trials'])), 'seed': r.getrandbits(32),
               'faults': fl, 'cwdout': False, 'policy': {'kind': 'seq'}}


def outside(b):
    out = {}
    for d in ('in', 'cwd', 'tmp', 'home'):
        for k, v in snapshot(b.path(d)).items():
            out[d + '/' + k] = v
    for n in os.listdir(b.root):
        if n not in ('in', 'cwd', 'tmp', 'home', 'std', 'out'):
            out[n] = 'present'
    return out


def execute(ctx, spec):
    scn = spec['scn']
    ctx.load(scn)
    b = ctx.bench
    b.reset()
    # bystander files
    for d, n in (('cwd', 'notes.txt'), ('out', 'user_file.csv'), ('tmp', 'other'), ('in', 'peaks.csv'),
                 ('cwd', 'candidate_0000.json')):
        with open(b.path(d, n), 'w') as f:
            f.write('bystander ' + n)
    try:
        before = outside(b)
        if spec['prog'] == 'rffa':
            args = S.argv(scn, b.root, outdir=None if spec['cwdout'] else 'out')
            m = b.pipeline(argv=args)
            if spec['cwdout']:
                m['cwd'] = 'out'
        else:
            args = rseek_argv(scn, spec['trial'], b.root)
            m = {'name': 'main', 'fn': rseek_fn(args)}
        res = ctx.run([m], policy=spec['policy'], faults=spec['faults'], seed=spec['seed'])
        after = outside(b)
    finally:
        os.unlink(b.path('in', 'peaks.csv'))
    ctx.digests['last'] = res.digest()
    out = outcome(res)
    ctx.stats['%s ended: %s' % (spec['prog'], out)] += 1
    ctx.stats['operations watched'] += len(res.events)
    log = 'cwd/run-%s.log' % ('x' if spec['cwdout'] else 'out')
    allowed = lambda rel: (spec['prog'] == 'rffa' and (rel == 'out' or rel.startswith('out/'))) or \
        (rel == log and scn['cli']['logfile'])
    bad = []
    for vpid, p, what, step in res.foreign:
        bad.append('%s of %s, outside the scratch tree (process %d, step %d)' % (what, p, vpid, step))
    for step, vpid, kind, rel, o in res.events:
        if kind in MUT and not allowed(rel):
            bad.append('%s of %s (process %d, step %d)' % (kind, rel, vpid, step))
    diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and not allowed(k))
    diff = [k for k in diff if not (k == 'cwd' or before.get(k, ('',))[0] == 'd' and after.get(k, ('',))[0] == 'd')]
    bad += ['%s was %s' % (k, 'created' if k not in before else 'removed' if k not in after else 'modified') for k in diff]
    if spec['prog'] == 'rffa' and not os.path.exists(b.path('out', 'user_file.csv')):
        bad.append('out/user_file.csv, not a data product, was removed')
    ctx.sample({'program': spec['prog'], 'outcome': out, 'operations': len(res.events),
                'faults': [F.label(f) for f in spec['faults']]})
    if bad:
        return [Violation('a %s run (%s) changed something outside its output directory: %s' % (
            spec['prog'], out, '; '.join(bad[:4])), 'P10:outside')]
    return []


def rseek_argv(scn, i, root, extra=()):
    rg = scn['config']['ranges'][0]['ffa_search']
    return ['-f', scn['fmt'], '--Pmin', repr(rg['period_min']), '--Pmax', repr(rg['period_max']),
            '--bmin', str(rg['bins_min']), '--bmax', str(rg['bins_max']),
            '--rmed_width', repr(scn['config']['dereddening']['rmed_width']), *extra,
            os.path.join(root, 'in', S.fname(scn, i))]


def rseek_fn(args):
    def fn():
        import sys
        sys.argv = ['rseek'] + args
        import riptide.apps.rseek as m
        return m.main() and None
    return fn
