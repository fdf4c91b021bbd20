from .. import core, faults as F, scenario as S
from ..engine import Skip, Violation, good_scenario
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, digest, outcome

UNITS = {'quick': 72, 'thorough': 1600}
PER_UNIT = {'quick': 9, 'thorough': 18}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario; runs meet stalls, task failures, I/O errors, failing process creation and worker '
        'deaths under random schedules; once faults stop every run must end within a step bound proportional to its '
        'fault-free length (also through a Pipeline object that outlives the run), with no worker and no open file left on success; non-trivial = distinct interleavings')


def plan(ctx, r, tier, unit):
    plots = unit % 10 == 6
    scn = good_scenario(ctx, r, plots=plots, small=plots, cap=4, max_trials=6, want_peaks=r.random() < 0.9,
                        nocand=0.2)
    base, _ = ctx.baseline(scn)
    occ = F.occurrences(base.events)
    workers = {o[4] for o in occ} - {0}
    for k in range(4 if plots else PER_UNIT[tier]):
        fl = []
        x = r.random()
        if x < 0.25:
            f = F.kill_worker(r, occ, workers)
            fl += [f] if f else []
        elif x < 0.7:
            for _ in range(r.randint(1, 3)):
                f = F.error(r, occ)
                fl += [f] if f else []
        elif x < 0.9:
            # a lasting condition: a file that cannot be read, a directory that cannot be written, no memory
            # (half of them met by the workers)
            f = F.error(r, occ, where=(lambda o: o[4] in workers) if r.random() < 0.5 else None)
            if f:
                at = {k: f['at'][k] for k in ('op', 'rel')}
                f = {'at': dict(at, every=True), 'act': f['act']}
                f['act'].pop('k', None)
                fl.append(f)
        for _ in range(r.choice([0, 1, 2])):
            fl.append(F.benign(r, occ))
        yield {'scn': scn, 'api': r.random() < 0.4, 'seed': r.getrandbits(32), 'faults': fl, 'policy': core.random_policy(r)}


def execute(ctx, spec):
    scn = spec['scn']
    base, prod = ctx.baseline(scn)
    ctx.digests['last'] = digest(base, prod)
    ctx.load(scn)
    b = ctx.bench
    b.reset()
    shorts = sum(f['act']['t'] == 'short' for f in spec['faults'])
    bound = 6 * base.steps + 3000 + 3000 * shorts
    res = ctx.run([b.pipeline(api=bool(spec.get('api')))], policy=spec['policy'], faults=spec['faults'], seed=spec['seed'], max_steps=bound)
    out = outcome(res)
    ctx.stats['ended: ' + out] += 1
    ctx.stats['worker deaths'] += len(res.deaths)
    ctx.sample({'outcome': out, 'steps': res.steps, 'bound': bound, 'faults': [F.label(f) for f in spec['faults']]})
    v = []
    if out in ('hang', 'steps', 'wall'):
        lost = [t for _, t in res.deaths if t is not None]
        sig = 'P11:' + out
        if out == 'hang' and lost and 'waiting in wait' in res.detail and "'mode': 'all'" in res.detail:
            sig = 'P11:hang-after-worker-death'
        v.append(Violation('the run never ends (%s): %s; tasks lost with dead workers: %s' % (out, res.detail, lost), sig))
    elif res.mains.get('main', {}).get('threads_left'):
        v.append(Violation('the run (outcome %s) never exits: threads %s are still running and are waited for' % (
            out, res.mains['main']['threads_left']), 'P11:hang-threads'))
    elif out in ('ok',):
        st = res.mains['main']
        if st.get('alive_workers'):
            v.append(Violation('the run ends normally with %d worker processes still running' % st['alive_workers'],
                               'P11:workers-left'))
        left = [f for f in st.get('open_files', []) if not f.startswith('cwd/run-')]
        if left:
            v.append(Violation('the run ends normally with files still open: %s' % left[:4], 'P11:files-left'))
    elif out == 'crashed':
        v.append(Violation('the main process dies by itself: signal %s' % res.mains['main'].get('signal'), 'P11:crash'))
    return v
