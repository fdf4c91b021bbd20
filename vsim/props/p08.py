from .. import core, faults as F, model, scenario as S
from ..engine import Skip, Violation, good_scenario
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, digest, outcome
from .products import oracle_of

UNITS = {'quick': 56, 'thorough': 2200}
PER_UNIT = {'quick': 6, 'thorough': 12}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario with candidates, some of which cannot be folded; each run fails allocations in '
        'folds of the main process; what remains is compared with the model; non-trivial = distinct interleavings')


def plan(ctx, r, tier, unit):
    scn = good_scenario(ctx, r, kind='scripted' if r.random() < 0.6 else 'real', max_trials=5, cap=8,
                        need=lambda s, o: len(o.clusters) >= 2)
    if scn.get('script') and r.random() < 0.6:
        # exactly one sample per bin at the shortest period: such a candidate cannot be folded
        rg = scn['config']['ranges'][0]
        s = S.with_(scn)
        s['config']['ranges'][0]['candidates']['bins'] = int(round(rg['ffa_search']['period_min'] * 1024))
        key = '%d/0' % r.randrange(len(s['trials']))
        s['script']['peaks'].setdefault(key, []).append([1.0 / rg['ffa_search']['period_min'], 1,
                                                        r.choice([9.0, 14.0, 40.0])])
        s['config']['candidate_filters'].update(max_number=r.choice([None, None, 3]), dm_min=None)
        try:
            ctx.oracle(S.with_(s, **{'config.processes': 1, 'order': list(range(len(s['trials'])))}))
            scn = s
        except Skip:
            pass
    base, _ = ctx.baseline(scn)
    occ = F.occurrences(base.events)
    folds = [o for o in occ if o[0] == 'kernel' and o[4] == 0 and o[1] != 'running_median']
    for k in range(PER_UNIT[tier]):
        fl = []
        if folds and (k or r.random() < 0.5):
            for o in r.sample(folds, min(len(folds), r.choice([1, 1, 1, 2, 3, 5]))):
                # the count of kernel calls up to here depends on the schedule only through the workers' own calls,
                # all of which precede the first fold
                fl.append({'at': F.at(o), 'act': {'t': 'mem'}})
            if r.random() < 0.15:
                fl = [{'at': {'op': 'kernel', 'rel': folds[0][1], 'role': 'main', 'every': True}, 'act': {'t': 'mem'}}]
        yield {'scn': scn, 'seed': r.getrandbits(32), 'faults': fl,
               'policy': {'kind': 'seq'} if r.random() < 0.5 else core.random_policy(r)}


def execute(ctx, spec):
    scn = spec['scn']
    base, prod = ctx.baseline(scn)
    ctx.digests['last'] = digest(base, prod)
    o = oracle_of(ctx, scn)
    ctx.load(scn)
    b = ctx.bench
    b.reset()
    res = ctx.run([b.pipeline()], policy=spec['policy'], faults=spec['faults'], seed=spec['seed'])
    out = outcome(res)
    lost = sum(1 for f in res.fired if f['t'] == 'mem')
    if any(f['t'] == 'mem' and f['rel'] == 'running_median' for f in res.fired):
        raise Skip('fault outside a fold')
    if out == 'error':
        st = res.mains['main']
        return [Violation('a candidate that cannot be folded makes the whole run fail: %s: %s' % (
            st.get('exc'), st.get('msg')), 'P08:fails')]
    if out != 'ok':
        raise Skip('run ended as ' + out)
    info = {}
    bad = model.verify(scn, o, b.products(canon=False), b.root, lost=lost, info=info)
    for k, v in info.items():
        ctx.stats[k] += v
    ctx.stats['folds failed by injection'] += lost
    ctx.stats['runs where a candidate is lost'] += bool(lost or info.get('unfoldable'))
    ctx.sample({'clusters': len(o.clusters), 'folds_failed': lost, 'unfoldable': info.get('unfoldable'),
                'products': len(b.products())})
    return [Violation('with %d failing folds and %s unfoldable candidates: %s' % (lost, info.get('unfoldable'), m),
                      'P08:differs') for p, m in bad]
