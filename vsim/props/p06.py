import os

from .. import core, faults as F, scenario as S
from ..bench import is_product
from ..engine import Skip, Violation, good_scenario
from ..util import rng
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, diff_products, digest, outcome

UNITS = {'quick': 40, 'thorough': 1600}
PER_UNIT = {'quick': 6, 'thorough': 12}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario; each history is 1-4 runs that are killed (any operation, torn writes, surviving '
        'workers, machine crash losing unsynced data) or fail, then a fault-free run in the same directory, compared '
        'with a clean run; non-trivial = distinct interleavings')


def plan(ctx, r, tier, unit):
    plots = unit % 10 == 3
    scn = good_scenario(ctx, r, plots=plots, small=plots, cap=5, max_trials=5)
    base, _ = ctx.baseline(scn)
    occ = F.occurrences(base.events)
    late = [o for o in occ if o[1].startswith('out/')]
    for k in range(3 if plots else PER_UNIT[tier]):
        att = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            fl = []
            x = r.random()
            if x < 0.7:
                f = F.kill_main(r, occ)
                if f:
                    fl.append(f)
            elif x < 0.9:
                f = F.error(r, occ)
                if f:
                    fl.append(f)
            # x >= 0.9: that run completes
            att.append({'faults': fl, 'policy': {'kind': 'seq'} if r.random() < 0.5 else core.random_policy(r),
                        'seed': r.getrandbits(32), 'processes': r.randint(1, 4) if r.random() < 0.3 else None,
                        'power': r.getrandbits(32) if r.random() < 0.3 else None})
        yield {'scn': scn, 'attempts': att, 'seed': r.getrandbits(32), 'faults': [],
               'policy': {'kind': 'seq'} if r.random() < 0.5 else core.random_policy(r)}


def power_loss(d, seed):
    """What may be left of recently written files after the machine goes down."""
    r = rng('power', seed)
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if not os.path.isfile(p) or r.random() < 0.4:
            continue
        size = os.path.getsize(p)
        x = r.random()
        if x < 0.35:
            with open(p, 'r+b') as f:
                f.truncate(r.randrange(size + 1))
        elif x < 0.7 and size:
            blk = r.choice([512, 4096])
            with open(p, 'r+b') as f:
                for k in range((size + blk - 1) // blk):
                    if r.random() < 0.4:
                        f.seek(k * blk)
                        f.write(b'\0' * min(blk, size - k * blk))
        elif x < 0.85:
            with open(p, 'r+b') as f:
                f.truncate(0)
        else:
            os.unlink(p)


def execute(ctx, spec):
    scn = spec['scn']
    base, prod = ctx.baseline(scn)
    ctx.digests['last'] = digest(base, prod)
    ctx.load(scn)
    b = ctx.bench
    b.reset()
    outs = []
    for a in spec['attempts']:
        v = S.with_(scn, **{'config.processes': a['processes'] or scn['config']['processes']})
        S.materialise_config(v, b.path('in'))
        res = ctx.run([b.pipeline(scn=v)], policy=a['policy'], faults=a['faults'], seed=a['seed'])
        outs.append(outcome(res))
        ctx.stats['interrupted run: ' + outs[-1]] += 1
        if a.get('power'):
            power_loss(b.path('out'), a['power'])
            ctx.fault_counts['machine crash (unsynced data lost)'] += 1
        b.reset(keep=('out',))
    S.materialise_config(scn, b.path('in'))
    left = sum(is_product(n) for n in os.listdir(b.path('out')))
    ctx.stats['recoveries with products left behind'] += bool(left)
    res = ctx.run([b.pipeline()], policy=spec['policy'], faults=spec['faults'], seed=spec['seed'])
    out = outcome(res)
    ctx.sample({'interrupted': outs, 'left_behind': left, 'faults': [[dict(f['at'], **f['act']) for f in a['faults']]
                                                                  for a in spec['attempts']]})
    if out == 'error':
        st = res.mains['main']
        return [Violation('after interrupted runs (%s) a fault-free run in the same directory fails: %s: %s' % (
            outs, st.get('exc'), st.get('msg')), 'P06:fails')]
    if out != 'ok':
        raise Skip('run ended as ' + out)
    d = diff_products(prod, b.products())
    if d:
        return [Violation('products after recovery from %s differ from those of a clean run: %s' % (outs, d),
                          'P06:differs')]
    return []
