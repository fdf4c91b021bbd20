from . import products
from .. import scenario as S
from ..engine import Skip, Violation
from .common import digest, outcome, ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB

UNITS = {'quick': 96, 'thorough': 4000}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario (four fifths with scripted spectra built around harmonic families and filter '
        'thresholds); each run has its own schedule; flags and candidate sets are compared with the model; '
        'non-trivial = distinct interleavings of runs with a decision')


def plan(ctx, r, tier, unit):
    kind = 'real' if unit % 5 == 0 else 'scripted'
    for k, spec in enumerate(products.plan(ctx, r, tier, unit, 'P04', 3, kind=kind, max_trials=5, cap=10,
                                           need=lambda s, o: len(o.clusters) > 1)):
        if k:
            # another combination of filters on the same clusters
            s = spec['scn']
            dms = [t['dm'] for t in s['trials']]
            cf = {'dm_min': r.choice([None, None, 0.0, dms[0], dms[1], dms[-1]]),
                  'snr_min': r.choice([None, None, 0.0, 10.0, 12.0, 16.0]),
                  'remove_harmonics': r.choice([True, True, False, None]),
                  'max_number': r.choice([None, 1, 2, 3, 4, 10]) if kind == 'scripted' else r.choice([1, 3, 8])}
            spec['scn'] = S.with_(s, **{'config.candidate_filters': cf})
        yield spec
    yield dict(spec, tables=True)


TABLES = ('peaks.csv', 'clusters.csv')


def tables(ctx, spec):
    out = []
    for scn in (spec['scn'], S.with_(spec['scn'], **{'config.candidate_filters': {
            'dm_min': None, 'snr_min': None, 'remove_harmonics': False, 'max_number': None}})):
        ctx.load(scn)
        b = ctx.bench
        b.reset()
        res = ctx.run([b.pipeline()], policy={'kind': 'seq'}, seed=spec['seed'])
        if outcome(res) != 'ok':
            raise Skip('run ended as ' + outcome(res))
        ctx.digests['last'] = digest(res, b.products())
        prod = b.products(canon=False)
        out.append({n: prod.get(n) for n in TABLES})
    for n in TABLES:
        if out[0][n] != out[1][n]:
            a, b = [(x[n] or b'').count(b'\n') for x in out]
            return [Violation('%s depends on the candidate filters (%d lines with them, %d without)' % (n, a, b),
                              'P04:tables')]
    return []


def execute(ctx, spec):
    if spec.get('tables'):
        return tables(ctx, spec)
    return products.execute(ctx, spec, 'P04')
