from . import products
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB

UNITS = {'quick': 72, 'thorough': 3000}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario (2-9 trials, 1-3 ranges); each run has its own schedule, worker count and file '
        'order, and its peak table is compared as a multiset with isolated stand-alone searches of the trials a '
        'reference model selects; non-trivial = distinct interleavings of runs with a decision')


def plan(ctx, r, tier, unit):
    kind = 'scripted' if unit % 2 else 'real'
    return products.plan(ctx, r, tier, unit, 'P02', 4, kind=kind, dense=True, max_trials=9, cap=2,
                         want_peaks=unit % 12 != 0)


def execute(ctx, spec):
    return products.execute(ctx, spec, 'P02')
