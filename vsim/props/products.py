"""P02, P03, P04: the products of completed runs against the executable model."""
from .. import core, faults as F, model, scenario as S
from ..engine import Skip, Violation, good_scenario
from .common import digest, outcome


def plan(ctx, r, tier, unit, part, per_unit, **kw):
    scn = good_scenario(ctx, r, **kw)
    yield {'scn': scn, 'seed': 0, 'policy': {'kind': 'seq'}, 'faults': []}
    occ = None
    for k in range(per_unit - 1):
        s = S.with_(scn, **{'config.processes': r.randint(1, 5)})
        r.shuffle(s['order'])
        fl = []
        if r.random() < 0.4:
            # errors the run may survive: if it ends normally, its products are still those of the model
            if occ is None:
                base, _ = ctx.baseline(scn)
                occ = F.occurrences(base.events)
            for _ in range(r.randint(0, 2)):
                f = F.error(r, occ, faulty)
                fl += [f] if f else []
            for _ in range(r.randint(0 if fl else 1, 2)):
                fl.append(F.benign(r, occ))
        yield {'scn': s, 'seed': r.getrandbits(32), 'policy': core.random_policy(r), 'faults': fl}


def faulty(o):
    # failures while folding a candidate are P08's; log files do not count
    if o[0] == 'kernel' and o[4] == 0 and o[1] != 'running_median':
        return False
    return not o[1].startswith('cwd/')


BENIGN = ('short', 'stall', 'freeze', 'clock')


def oracle_of(ctx, scn):
    """The model does not depend on worker count, file order or output options."""
    key = S.with_(scn, **{'config.processes': 1, 'order': list(range(len(scn['trials'])))})
    o = ctx.oracle(key)
    return o


def execute(ctx, spec, part):
    scn = spec['scn']
    o = oracle_of(ctx, scn)
    ctx.load(scn)
    b = ctx.bench
    b.reset()
    res = ctx.run([b.pipeline()], policy=spec['policy'], faults=spec['faults'], seed=spec['seed'])
    out = outcome(res)
    if out == 'error':
        st = res.mains['main']
        hard = [f for f in res.fired if f['t'] not in BENIGN]
        if hard:
            ctx.stats['runs ended by an injected error'] += 1
            return []
        return [Violation('a fault-free run on valid input fails: %s: %s' % (st.get('exc'), st.get('msg')), part + ':fails')]
    if out != 'ok':
        raise Skip('run ended as ' + out)
    prod = b.products(canon=False)
    ctx.digests['last'] = digest(res, b.products())
    ctx.stats['completed runs that met a fault'] += bool(res.fired)
    info = {}
    bad = model.verify(scn, o, prod, b.root, parts=(part,), info=info)
    for k, v in info.items():
        ctx.stats[k] += v
    ctx.stats['peaks compared'] += len(o.peaks)
    ctx.stats['clusters compared'] += len(o.clusters)
    ctx.stats['candidate files compared'] += sum(n.endswith('.json') for n in prod)
    ctx.stats['scripted runs' if scn.get('script') else 'real-data runs'] += 1
    ctx.sample({'kind': scn['kind'], 'trials': len(scn['trials']), 'searched': len(o.selected), 'peaks': len(o.peaks),
                'clusters': len(o.clusters), 'files': len(prod), 'policy': spec['policy'].get('kind'),
                'processes': scn['config']['processes']})
    return [Violation(m, p) for p, m in bad]
