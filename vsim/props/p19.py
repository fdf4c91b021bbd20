from .. import core, faults as F, scenario as S
from ..engine import Skip, Violation, good_scenario
from ..seams import STATE
from ..util import sha
from . import multi
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, diff_products, outcome
from .p18 import related

UNITS = {'quick': 40, 'thorough': 1600}
PER_UNIT = {'quick': 5, 'thorough': 10}
LEVEL = 'exploration'
RULE = ('a unit is a scenario and configurations derived from it; 2-3 programs run at the same time on the same input '
        'files, in the same working directory, under random schedules, some of them failing or killed; the products of '
        'each program that meets no fault are compared with its solo run; non-trivial = distinct interleavings')


def plan(ctx, r, tier, unit):
    plots = unit % 10 == 9
    a = good_scenario(ctx, r, plots=plots, small=plots, cap=4, max_trials=4, want_peaks=True)
    a['cli']['relative'] = False
    confs = [a]
    while len(confs) < 3:
        s = related(ctx, r, a)
        if s is None:
            s = S.with_(a)
        # the input files are shared
        s = S.with_(s, trials=a['trials'])
        if a.get('script'):
            s['script'] = a['script']
        confs.append(s)
    for k in range(2 if plots else PER_UNIT[tier]):
        n = r.choice([2, 2, 3])
        progs = [r.randrange(3) if r.random() < 0.7 else 0 for _ in range(n)]
        fl = []
        if r.random() < 0.6:
            j = r.randrange(n)
            x = r.random()
            if x < 0.4:
                fl.append({'at': {'op': r.choice(['open', 'write', 'read', 'take', 'kernel', 'close']), 'main': 'm%d' % j,
                                  'nth': r.randint(1, 25)},
                           'act': {'t': 'kill', 'who': 'main', 'orphans': r.random() < 0.3}})
            elif x < 0.7:
                fl.append({'at': {'op': r.choice(['open', 'write', 'close']), 'rel': 'out%d/*' % j, 'nth': r.randint(1, 6)},
                           'act': {'t': 'errno', 'e': r.choice(F.WRITE)}})
            else:
                fl.append({'at': {'op': 'kernel', 'main': 'm%d' % j, 'nth': r.randint(1, 20)}, 'act': {'t': 'mem'}})
        yield {'confs': confs, 'progs': progs, 'faults': fl, 'seed': r.getrandbits(32), 'policy': core.random_policy(r)}


def mains(b, confs, progs, only=None):
    out = []
    for j, c in enumerate(progs):
        if only is not None and j != only:
            continue

        def fn(j=j, c=c):
            import sys
            if confs[c].get('script'):
                STATE.kernel_stub = S.stub_periodogram(confs[c])
            sys.argv = ['rffa'] + multi.args_of(b, confs, c, 0, 0, 'out%d' % j)
            import riptide.pipeline.pipeline as m
            return m.main() and None
        out.append({'name': 'm%d' % j, 'fn': fn})
    return out


def load(ctx, confs):
    b = ctx.bench
    multi.load(ctx, [confs[0]])
    for k, s in enumerate(confs):
        multi.put_config(b, k, s)
    multi.reset(b, 3)


def execute(ctx, spec):
    confs, progs = spec['confs'], spec['progs']
    b = ctx.bench
    refs = []
    for j, c in enumerate(progs):
        def fn():
            load(ctx, confs)
            res = ctx.run(mains(b, confs, progs, only=j))
            if res.status != 'done':
                raise Skip('solo run: ' + res.status)
            return outcome(res, 'm%d' % j), multi.products(b, 'out%d' % j)
        refs.append(ctx.cached('solo19', {'confs': confs, 'c': c, 'j': j}, fn))
    load(ctx, confs)
    res = ctx.run(mains(b, confs, progs), policy=spec['policy'], faults=spec['faults'], seed=spec['seed'], max_steps=60000)
    ctx.digests['last'] = sha(res.digest())
    hit = set()
    for f in res.fired:
        m = f.get('main') or ('m' + f['rel'][3] if f['rel'].startswith('out') else None)
        hit.add(m)
    ctx.sample({'programs': progs, 'outcomes': {n: m.get('status') for n, m in res.mains.items()}, 'decisions': res.branches,
                'faults': [F.label(f) for f in spec['faults']]})
    if res.status == 'hang':
        return [Violation('concurrent programs never end: %s' % res.detail, 'P19:hang')]
    if res.status != 'done':
        raise Skip(res.status)
    for j, c in enumerate(progs):
        name = 'm%d' % j
        out = outcome(res, name)
        ctx.stats['programs'] += 1
        if name in hit:
            ctx.stats['programs that met a fault: ' + out] += 1
            continue
        want, prod = refs[j]
        others = ['%s %s' % (n, m.get('status')) for n, m in sorted(res.mains.items()) if n != name]
        if (out == 'ok') != (want == 'ok'):
            st = res.mains[name]
            return [Violation('program %s ends with %s (%s: %s) next to %s, but alone with %s' % (
                name, out, st.get('exc'), st.get('msg'), others, want), 'P19:outcome')]
        if want != 'ok':
            continue
        d = diff_products(prod, multi.products(b, 'out%d' % j))
        ctx.stats['programs compared'] += 1
        if d:
            return [Violation('program %s gives other products next to %s than alone: %s' % (name, others, d),
                              'P19:differs')]
    return []
