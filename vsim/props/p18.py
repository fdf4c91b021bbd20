import copy
import os

from .. import core, faults as F, scenario as S, seams
from ..engine import Incomplete, Skip, Violation, good_scenario, shrink_spec
from ..seams import STATE
from ..util import sha
from . import multi
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, diff_products

UNITS = {'quick': 40, 'thorough': 1600}
PER_UNIT = {'quick': 4, 'thorough': 8}
LEVEL = 'exploration'
RULE = ('a unit is 2-3 related scenarios; each history is 2-5 pipeline runs in one process (command line, new or re-used '
        'Pipeline objects, other files at the same paths, empty and failing runs); each run that meets no fault is '
        'compared with the same run alone in a fresh process; non-trivial = distinct interleavings')


def related(ctx, r, scn):
    """A scenario that differs from scn in a way a leak of state would show."""
    s = S.with_(scn)
    x = r.random()
    if x < 0.22:        # other headers (and data) under the same names
        if r.random() < 0.7:
            dms = [t['dm'] for t in s['trials']]
            r.shuffle(dms)
            c = r.choice([0, 0, 0.01, 0.3])
            for t, dm in zip(s['trials'], dms):
                t['dm'] = round(dm + c, 6)
        if not s.get('script') and r.random() < 0.5:
            for t in s['trials']:
                t['nsamp'] -= r.choice([0, 1, 64, 500])
                t.pop('breaks', None)
        if r.random() < 0.5:
            s['src'] = r.choice(['J0000+0000', s['src']])
            s['mjd'] = round(s['mjd'] + r.choice([0.5, 1.0]), 6)
            s['bary'] = 1 - s['bary']
        if r.random() < 0.3:
            s['band']['fbot'] *= 1.01
    elif x < 0.4:       # other data under the same names
        for t in s['trials']:
            t['seed'] = r.getrandbits(32)
        if s.get('script'):
            ks = sorted(s['script']['peaks'])
            vs = [s['script']['peaks'][k] for k in ks]
            r.shuffle(vs)
            s['script']['peaks'] = dict(zip(ks, vs))
    elif x < 0.5:       # nothing to find
        if s.get('script'):
            s['script']['peaks'] = {}
        else:
            for g in s['config']['ranges']:
                g['find_peaks']['smin'] = 1e6
    elif x < 0.77:      # same data, other parameters
        for g in s['config']['ranges']:
            g['candidates']['subints'] = r.choice([1, 2, 3, 5, 7])
            if not s.get('script'):
                g['find_peaks']['smin'] = r.choice([5.0, 6.5, 8.0, 9.5])
        s['config']['clustering']['radius'] = r.choice([0.05, 0.3, 1.0])
        s['config']['candidate_filters'].update(max_number=r.choice([None, 1, 2]), dm_min=None,
                                                snr_min=r.choice([None, 7.0, 9.0]))
        s['config']['dmselect'].update(min=None, max=None, dmsinb_max=None)
        s['config']['processes'] = r.randint(1, 4)
    elif x < 0.85:      # refused: no trial in the DM range
        s['config']['dmselect'].update(min=1e5, max=2e5)
    else:
        return None
    return s


def plan(ctx, r, tier, unit):
    plots = unit % 10 == 8
    a = good_scenario(ctx, r, plots=plots, small=plots, cap=4, max_trials=4, want_peaks=True)
    scns = [a]
    while len(scns) < r.choice([2, 3]):
        s = related(ctx, r, a)
        if s is None:
            s = good_scenario(ctx, r, small=True, cap=4, max_trials=4, want_peaks=r.random() < 0.8)
        scns.append(s)
    for k in range(2 if plots else PER_UNIT[tier]):
        steps = []
        for j in range(r.randint(2, 5)):
            i = r.randrange(len(scns))
            how = r.choice(['cli', 'new', 'reuse', 'reuse'])
            f = i
            if how == 'reuse':
                prev = [t for t in steps if t['how'] in ('new', 'reuse')]
                if prev and r.random() < 0.8:
                    i = r.choice(prev)['conf']
                    f = r.choice([q for q in range(len(scns)) if same_kind(scns[q], scns[i])])
            steps.append({'conf': i, 'files': f, 'dir': f if r.random() < 0.6 else place_for(r, scns, f), 'how': how})
        fl = []
        if r.random() < 0.35:
            j = r.randrange(len(steps) - 1)
            x = r.random()
            if x < 0.4:
                fl.append({'at': {'op': r.choice(['open', 'write', 'close']), 'rel': 'out%d/*' % j, 'nth': r.randint(1, 6)},
                           'act': {'t': 'errno', 'e': r.choice(F.WRITE)}})
            elif x < 0.8:
                fl.append({'at': {'op': 'kernel', 'nth': r.randint(1, 30)}, 'act': {'t': 'mem'}})
            else:
                fl.append({'at': {'op': 'open', 'rel': 'in/s*', 'nth': r.randint(1, 20)}, 'act': {'t': 'errno', 'e': 5}})
        yield {'scns': scns, 'steps': steps, 'faults': fl, 'seed': r.getrandbits(32),
               'policy': {'kind': 'seq'} if r.random() < 0.5 else core.random_policy(r)}


def same_kind(a, b):
    return bool(a.get('script')) == bool(b.get('script')) and a['fmt'] == b['fmt'] and (
        not a.get('script') or [g['ffa_search'] for g in a['config']['ranges']] ==
        [g['ffa_search'] for g in b['config']['ranges']])


def place_for(r, scns, f):
    c = [q for q in range(len(scns)) if scns[q]['fmt'] == scns[f]['fmt']]
    return r.choice(c)


def process_fn(b, scns, steps):
    """The body of the simulated process: the runs one after the other."""
    def fn():
        import sys
        import riptide.pipeline.pipeline as m
        objs = {}
        outs = []
        for j, st in enumerate(steps):
            seams.sim('user', 'start:%d' % j)
            scn = scns[st['files']]
            STATE.kernel_stub = S.stub_periodogram(scn) if scn.get('script') else None
            args = multi.args_of(b, scns, st['conf'], st['files'], st['dir'], 'out%d' % st.get('out', j))
            try:
                if st['how'] == 'cli':
                    sys.argv = ['rffa'] + args
                    m.main()
                else:
                    ns = m.get_parser().parse_args(args)
                    if st['how'] == 'new' or st['conf'] not in objs:
                        objs[st['conf']] = m.Pipeline.from_yaml_config(ns.config)
                    import matplotlib.pyplot as plt
                    plt.switch_backend('Agg')
                    objs[st['conf']].process(ns.files, ns.outdir)
                outs.append('ok')
            except SystemExit as e:
                outs.append('ok' if e.code in (0, None) else 'exit')
            except Exception as e:
                outs.append(type(e).__name__)
                e.__traceback__ = None
                del e
        return outs
    return fn


def runs(ctx, scns, steps, **kw):
    b = ctx.bench
    multi.load(ctx, scns)
    for d in range(len(scns)):
        multi.place(b, scns, d, d)
    multi.reset(b, 6)

    def hook(sim, p, rel, x):
        if rel.startswith('start:'):
            st = steps[int(rel[6:])]
            multi.place(b, scns, st['dir'], st['files'])
    res = ctx.run([{'name': 'main', 'fn': process_fn(b, scns, steps)}], hook=hook, max_steps=60000, **kw)
    for d in range(len(scns)):
        multi.place(b, scns, d, d)
    return res


def solo(ctx, scns, st, j):
    def fn():
        one = dict(st, how='cli' if st['how'] == 'cli' else 'new', out=j)
        res = runs(ctx, scns, [one])
        m = res.mains.get('main', {})
        if res.status != 'done' or m.get('status') != 'ok':
            raise Skip('solo run: %s %s %s' % (res.status, m.get('status'), m.get('exc')))
        return m['ret'][0], multi.products(ctx.bench, 'out%d' % j)
    key = {'trials': scns, 'st': dict(st, how='x' if st['how'] != 'cli' else 'cli'), 'j': j}
    return ctx.cached('solo', key, fn)


def execute(ctx, spec):
    scns, steps = spec['scns'], [dict(s) for s in spec['steps']]
    refs = [solo(ctx, scns, st, j) for j, st in enumerate(steps)]
    res = runs(ctx, scns, steps, policy=spec['policy'], faults=spec['faults'], seed=spec['seed'])
    m = res.mains.get('main', {})
    ctx.digests['last'] = sha(res.digest() + repr(m.get('ret')))
    if res.status == 'hang':
        return [Violation('runs one after the other never end: %s' % res.detail, 'P18:hang')]
    if res.status != 'done' or m.get('status') != 'ok':
        raise Skip('%s %s %s' % (res.status, m.get('status'), m.get('exc')))
    starts = [e[0] for e in res.events if e[2] == 'user'] + [10 ** 9]
    got = m['ret']
    ctx.sample({'runs': [(s['how'], s['conf'], s['files'], s['dir']) for s in steps], 'outcomes': got,
                'faults': [F.label(f) for f in spec['faults']]})
    for j, st in enumerate(steps):
        hit = [f for f in res.fired if starts[j] <= f['step'] < starts[j + 1]]
        ctx.stats['runs in sequence'] += 1
        ctx.stats['runs in sequence ended ' + ('ok' if got[j] == 'ok' else 'with an error')] += 1
        if hit:
            continue
        want, prod = refs[j]
        before = [(s['how'], got[i]) for i, s in enumerate(steps[:j])]
        if (want == 'ok') != (got[j] == 'ok'):
            return [Violation('run %d (%s) ends with %s after %s, but alone with %s' % (
                j, st['how'], got[j], before, want), 'P18:outcome')]
        if want != 'ok':
            continue
        d = diff_products(prod, multi.products(ctx.bench, 'out%d' % j))
        ctx.stats['runs compared'] += 1
        if d:
            return [Violation('run %d (%s) after runs %s in the same process gives other products than alone: %s' % (
                j, st['how'], before, d), 'P18:differs')]
    return []


def shrinks(spec):
    n = len(spec['steps'])
    for i in range(n):
        if n > 1:
            s = copy.deepcopy(spec)
            del s['steps'][i]
            # output directories are numbered by position: faults on them move along
            for f in s['faults']:
                rel = f['at'].get('rel', '')
                if rel.startswith('out') and rel[3:4].isdigit() and int(rel[3]) > i:
                    f['at']['rel'] = 'out%d%s' % (int(rel[3]) - 1, rel[4:])
            yield s
    for i, st in enumerate(spec['steps']):
        if st['dir'] != st['files']:
            s = copy.deepcopy(spec)
            s['steps'][i]['dir'] = st['files']
            yield s
    yield from shrink_spec(spec)
