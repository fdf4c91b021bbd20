from .. import core, faults as F, scenario as S
from ..engine import Skip, Violation, elsewhere, good_scenario
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, diff_products, digest, outcome

UNITS = {'quick': 40, 'thorough': 1600}
PER_UNIT = {'quick': 9, 'thorough': 16}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario; its fault-free default-schedule run is compared with runs under other schedules, '
        'worker counts, file orders, clocks and stalls, and with a run in another interpreter (hash seed, time zone); non-trivial = at least one scheduling decision was taken, '
        'counted as distinct interleavings')


def plan(ctx, r, tier, unit):
    plots = unit % 10 == 7
    scn = good_scenario(ctx, r, want_peaks=r.random() < 0.95, plots=plots)
    yield {'scn': scn, 'seed': 0, 'policy': {'kind': 'seq'}, 'faults': [], 'processes': scn['config']['processes'],
           'order': scn['order'], 'note': 'repeat'}
    base, _ = ctx.baseline(scn)
    yield {'scn': scn, 'env': {'PYTHONHASHSEED': str(r.getrandbits(32) % 4294967295),
                               'TZ': r.choice(['UTC', 'Asia/Kolkata', 'XST-11', 'America/Caracas'])}}
    occ = F.occurrences(base.events)
    for k in range(3 if plots else PER_UNIT[tier]):
        order = list(scn['order'])
        if r.random() < 0.5:
            r.shuffle(order)
        elif r.random() < 0.3:
            order.sort(reverse=r.random() < 0.5)
        procs = scn['config']['processes'] if r.random() < 0.4 else r.randint(1, 5)
        fl = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            f = F.benign(r, occ)
            if f['act']['t'] in ('stall', 'freeze', 'clock'):
                fl.append(f)
        yield {'scn': scn, 'seed': r.getrandbits(32), 'policy': core.random_policy(r), 'faults': fl,
               'processes': procs, 'order': order}


def execute(ctx, spec):
    scn = spec['scn']
    base, prod = ctx.baseline(scn)
    ctx.digests['last'] = digest(base, prod)
    if 'env' in spec:
        there = elsewhere(ctx, scn, spec['env'])
        ctx.stats['runs in another interpreter'] += 1
        d = 'the run fails in one of them' if there is None else diff_products(prod, there)
        if d:
            return [Violation('products depend on the interpreter the program runs in (%s): %s' % (
                ', '.join('%s=%s' % x for x in sorted(spec['env'].items())), d), 'P01:differs')]
        return []
    b = ctx.bench
    v = S.with_(scn, **{'config.processes': spec['processes'], 'order': [i for i in spec['order'] if i < len(scn['trials'])]})
    if sorted(v['order']) != list(range(len(scn['trials']))):
        v['order'] = sorted(range(len(scn['trials'])))
    ctx.load(scn)
    b.reset()
    # only the number of workers and the command line differ
    S.materialise_config(v, b.path('in'))
    try:
        r0 = spec['seed']
        wall0 = 1.7e9 if r0 == 0 else 1.0e9 + (r0 % 1000003) * 1000.0
        res = ctx.run([b.pipeline(scn=v)], policy=spec['policy'], faults=spec['faults'], seed=r0, wall0=wall0)
    finally:
        S.materialise_config(scn, b.path('in'))
    o = outcome(res)
    if o != 'ok':
        ctx.stats['runs that did not complete'] += 1
        if o == 'error' and not any(f['t'] not in ('stall', 'freeze', 'clock') for f in res.fired):
            st = res.mains['main']
            return [Violation('the run completes with one schedule, file order or clock and fails with another: %s %s' % (
                st.get('exc'), st.get('msg')), 'P01:fails')]
        return []
    d = diff_products(prod, b.products())
    ctx.sample({'trials': len(scn['trials']), 'processes': spec['processes'], 'policy': spec['policy'].get('kind'),
                'decisions': res.branches, 'faults': [F.label(f) for f in spec['faults']], 'products': len(prod)})
    if d:
        return [Violation('products depend on the schedule, worker count, file order or clock: ' + d, 'P01:differs')]
    return []
