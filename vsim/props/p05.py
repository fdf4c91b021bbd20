import os

from .. import core, faults as F, model, scenario as S
from ..engine import Incomplete, Skip, Violation, good_scenario
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, diff_products, digest, outcome
from .products import oracle_of

UNITS = {'quick': 40, 'thorough': 1600}
PER_UNIT = {'quick': 12, 'thorough': 24}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario; each run meets a random sequence of I/O, allocation and process-creation errors '
        'and legal short transfers placed on operations the fault-free run performs; a run that ends normally must '
        'leave exactly the fault-free products; non-trivial = distinct interleavings of faulted runs')


def eligible(o):
    # failures while folding a candidate are P08's; log files do not count
    if o[0] == 'kernel' and o[4] == 0 and o[1] not in ('running_median',):
        return False
    return not o[1].startswith('cwd/')


def plan(ctx, r, tier, unit):
    plots = unit % 4 == 1
    scn = good_scenario(ctx, r, plots=plots, small=plots, cap=4, max_trials=6)
    yield {'scn': scn, 'seed': 0, 'faults': [], 'policy': {'kind': 'seq'}, 'model': True}
    base, _ = ctx.baseline(scn)
    occ = F.occurrences(base.events)
    # every run of the unit uses the default schedule or another one
    for k in range(4 if plots else PER_UNIT[tier]):
        fl = []
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
            png = plots and r.random() < 0.5
            f = F.error(r, occ, (lambda o: o[1].endswith('.png')) if png else eligible)
            if f:
                fl.append(f)
        for _ in range(r.choice([0, 0, 1, 2]) if fl else r.randint(1, 4)):
            fl.append(F.benign(r, occ))
        if r.random() < 0.15:
            fl.append(F.all_short(r))
        yield {'scn': scn, 'seed': r.getrandbits(32), 'faults': fl,
               'policy': {'kind': 'seq'} if r.random() < 0.4 else core.random_policy(r)}


BENIGN = ('short', 'stall', 'freeze', 'clock')


def against_model(ctx, scn):
    """The fault-free run: complete, correct, and every requested plot shows its candidate."""
    try:
        base, prod = ctx.baseline(scn)
    except Incomplete as e:
        return [Violation(str(e), 'P05:fails')]
    ctx.digests['last'] = digest(base, prod)
    ctx.baseline(scn)
    b = ctx.bench
    ctx.load(scn)
    b.reset()
    res = ctx.run([b.pipeline()], seed=0)
    raw = b.products(canon=False)
    bad = model.verify(scn, oracle_of(ctx, scn), raw, b.root)
    if bad:
        return [Violation('a run that meets no error ends normally, but: ' + bad[0][1], 'P05:incomplete')]
    want = {n[:-5] + '.png' for n in raw if n.endswith('.json')} if scn['config']['plot_candidates'] else set()
    have = {n for n in raw if n.endswith('.png')}
    if want != have:
        return [Violation('plots missing: %s, not requested: %s' % (sorted(want - have), sorted(have - want)),
                          'P05:plots')]
    for n in sorted(have)[:3]:
        m = plot_differs(ctx, raw[n[:-4] + '.json'], raw[n])
        ctx.stats['plots compared'] += 1
        if m:
            return [Violation('%s does not show the candidate of the same number: %s' % (n, m), 'P05:plots')]
    return []


def plot_differs(ctx, js, png):
    import io
    import numpy as np
    import riptide
    from PIL import Image
    from riptide.serialization import from_json
    p = ctx.bench.path('tmp', 'ref.png')
    try:
        from_json(js.decode()).savefig(p)
        with open(p, 'rb') as f:
            ref = f.read()
    finally:
        if os.path.exists(p):
            os.unlink(p)
    try:
        a = np.asarray(Image.open(io.BytesIO(png)).convert('RGBA'))
    except Exception as e:
        return 'not a readable image: %r' % e
    c = np.asarray(Image.open(io.BytesIO(ref)).convert('RGBA'))
    if a.shape != c.shape:
        return 'image sizes %s and %s' % (a.shape, c.shape)
    n = int((a != c).any(axis=-1).sum())
    return '%d pixels differ' % n if n else None


def execute(ctx, spec):
    scn = spec['scn']
    if spec.get('model'):
        return against_model(ctx, scn)
    base, prod = ctx.baseline(scn)
    ctx.digests['last'] = digest(base, prod)
    ctx.load(scn)
    b = ctx.bench
    b.reset()
    res = ctx.run([b.pipeline()], policy=spec['policy'], faults=spec['faults'], seed=spec['seed'])
    out = outcome(res)
    ctx.stats['ended: ' + out] += 1
    ctx.stats['runs with a fault that fired'] += bool(res.fired)
    ctx.sample({'outcome': out, 'faults': [dict(f['at'], **f['act']) for f in spec['faults']],
                'exception': res.mains['main'].get('exc')})
    hard = [f for f in res.fired if f['t'] not in BENIGN]
    if out == 'error' and not hard:
        st = res.mains['main']
        return [Violation('conditions the operating system may produce (%s) make the run fail: %s: %s' % (
            sorted({f['t'] for f in res.fired}), st.get('exc'), st.get('msg')), 'P05:benign-fails')]
    if out != 'ok':
        if out != 'error':
            raise Skip('run ended as ' + out)
        return []
    ctx.stats['successful runs with an error injected'] += bool(hard)
    d = diff_products(prod, b.products())
    if d:
        what = ['%s of %s fails with %s' % (f['op'], f['rel'], f.get('e', f['t'])) for f in hard] or \
            sorted({f['t'] for f in res.fired})
        return [Violation('the run ends normally (%s) but its products are not complete: %s' % (what, d),
                          'P05:incomplete')]
    return []
