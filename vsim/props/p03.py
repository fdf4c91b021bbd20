from . import products
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB

UNITS = {'quick': 80, 'thorough': 3000}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario (two thirds with scripted spectra: exact ties, clustering distances, boundary '
        'periods); each run has its own schedule; tables and candidate files are compared with the model; '
        'non-trivial = distinct interleavings of runs with a decision')


def plan(ctx, r, tier, unit):
    kind = 'real' if unit % 3 == 0 else 'scripted'
    return products.plan(ctx, r, tier, unit, 'P03', 3, kind=kind, max_trials=6, cap=12)


def execute(ctx, spec):
    return products.execute(ctx, spec, 'P03')
