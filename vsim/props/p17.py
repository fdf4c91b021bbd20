import os

from .. import core, faults as F, scenario as S
from ..bench import snapshot
from ..engine import Skip, Violation, good_scenario
from .common import ASSUME_PIPE as ASSUME, REAL_PIPE as REAL, STUB_PIPE as STUB, digest, outcome
from .p10 import MUT
from .products import oracle_of

UNITS = {'quick': 40, 'thorough': 1600}
PER_UNIT = {'quick': 7, 'thorough': 14}
LEVEL = 'exploration'
RULE = ('a unit is a random scenario and invalid variants of it; the output directory already holds products of another '
        'run; runs are faulted or killed at every stage; no operation may touch the directory before the last search '
        'has finished, and runs that do not get there must leave it bit for bit; non-trivial = distinct interleavings')

INVALID = ('config-missing', 'config-type', 'config-extra', 'bins-fine', 'cand-bins-fine', 'gap', 'order', 'overlap',
           'no-dm', 'band', 'coords', 'no-file', 'no-band', 'not-yaml', 'bad-header', 'no-data', 'fmt')


def plan(ctx, r, tier, unit):
    scn = good_scenario(ctx, r, cap=3, max_trials=6)
    base, _ = ctx.baseline(scn)
    occ = F.occurrences(base.events)
    first_out = next((o[3] for o in occ if o[1].startswith('out/')), 10 ** 9)
    early = [o for o in occ if o[3] < first_out]
    for k in range(PER_UNIT[tier]):
        fl = []
        x = r.random()
        src = early if r.random() < 0.75 else occ
        if x < 0.3:
            f = F.kill_main(r, src, where=lambda o: True)
            fl += [f] if f else []
        elif x < 0.75:
            for _ in range(r.randint(1, 2)):
                f = F.error(r, src)
                fl += [f] if f else []
        else:
            fl.append(F.benign(r, occ))
        yield {'scn': scn, 'invalid': None, 'seed': r.getrandbits(32), 'faults': fl, 'policy': core.random_policy(r)}
    for k in range(2):
        yield {'scn': scn, 'invalid': [r.choice(INVALID), r.getrandbits(32)], 'seed': r.getrandbits(32), 'faults': [],
               'policy': {'kind': 'seq'} if r.random() < 0.5 else core.random_policy(r)}


def spoil(scn, kind, seed, b):
    """Turn a valid scenario into one that must be refused.  Returns (scenario, argv or None)."""
    from ..util import rng
    r = rng('spoil', seed)
    s = S.with_(scn)
    c = s['config']
    i = r.randrange(len(s['trials']))
    post = None
    if kind == 'config-missing':
        k = r.choice(['processes', 'ranges', 'clustering', 'harmonic_flagging', 'candidate_filters', 'dereddening', 'data'])
        del c[k]
    elif kind == 'config-type':
        k = r.choice(['processes', 'plot_candidates', 'radius', 'denom', 'bins'])
        if k == 'processes':
            c['processes'] = r.choice(['two', 0, -1, 1.5])
        elif k == 'plot_candidates':
            c['plot_candidates'] = 'yes please'
        elif k == 'radius':
            c['clustering']['radius'] = -0.1
        elif k == 'denom':
            c['harmonic_flagging']['denom_max'] = 0
        else:
            c['ranges'][0]['ffa_search']['bins_min'] = 0
    elif kind == 'config-extra':
        c['unknown_section'] = {'a': 1}
    elif kind == 'bins-fine':
        k = r.randrange(len(c['ranges']))
        rg = c['ranges'][k]
        tm = max(t['tsamp'] for t in s['trials'])
        rg['ffa_search']['bins_min'] = int(rg['ffa_search']['period_min'] / tm) + 5
        rg['ffa_search']['bins_max'] = rg['ffa_search']['bins_min'] + 8
    elif kind == 'cand-bins-fine':
        k = r.randrange(len(c['ranges']))
        rg = c['ranges'][k]
        tm = max(t['tsamp'] for t in s['trials'])
        rg['candidates']['bins'] = int(rg['ffa_search']['period_min'] / tm) + 5
    elif kind in ('gap', 'order', 'overlap'):
        last = c['ranges'][-1]
        new = S.with_({'x': last})['x']
        pm = last['ffa_search']['period_max']
        if kind == 'gap':
            new['ffa_search'].update(period_min=pm * 1.05, period_max=pm * 1.3)
            c['ranges'].append(new)
        elif kind == 'overlap':
            new['ffa_search'].update(period_min=pm * 0.97, period_max=pm * 1.2)
            c['ranges'].append(new)
        else:
            new['ffa_search'].update(period_min=pm, period_max=pm * 1.2)
            c['ranges'].insert(0, new)
    elif kind == 'no-dm':
        hi = max(t['dm'] for t in s['trials'])
        c['dmselect'].update(min=hi + 1.0, max=hi + 50.0)
    elif kind == 'fmt':
        c['data']['format'] = 'sigproc' if s['fmt'] == 'presto' else 'presto'
    elif kind == 'band':
        if s['fmt'] != 'presto':
            return None
        c['data'].update(fmin=None, fmax=None, nchans=None)
        post = ('band', i)
    elif kind == 'coords':
        post = ('coords', i)
    elif kind == 'no-file':
        post = ('no-file', i)
    elif kind == 'no-band':
        if s['fmt'] == 'presto':
            return None
        c['data'][r.choice(['fmin', 'fmax', 'nchans'])] = None
    elif kind == 'not-yaml':
        post = ('not-yaml', 0)
    elif kind == 'bad-header':
        post = ('bad-header', i)
    elif kind == 'no-data':
        post = ('no-data', i)
    return s, post


def apply_post(scn, post, b):
    k, i = post
    base = b.path('in', scn['trials'][i]['base'])
    head = base + ('.inf' if scn['fmt'] == 'presto' else '.tim')
    if k == 'no-file':
        os.unlink(head)
    elif k == 'not-yaml':
        with open(b.path('in', 'config.yaml'), 'w') as f:
            f.write('processes: [1, 2\nranges: }{')
    elif k == 'bad-header':
        with open(head, 'r+b') as f:
            f.truncate(150)
    elif k == 'no-data':
        sel = oracle_trials(scn)
        j = sel[i % len(sel)]
        base = b.path('in', scn['trials'][j]['base'])
        if scn['fmt'] == 'presto':
            os.unlink(base + '.dat')
        else:
            with open(base + '.tim', 'r+b') as f:
                f.truncate(len(S.sigproc_header(scn, j)))
    else:
        v = S.with_(scn)
        if k == 'band':
            v['band']['fbot'] += 1.0
        else:
            v['raj'] = '%02d' % ((int(v['raj'][:2]) + 1) % 24) + v['raj'][2:]
            v['sp']['raj'] = v['sp']['raj'] + (10000 if v['sp']['raj'] < 200000 else -10000)
        S.materialise({**v, 'trials': v['trials']}, b.path('_alt'))
        for ext in ('.inf', '.tim'):
            src = b.path('_alt', scn['trials'][i]['base'] + ext)
            if os.path.exists(src):
                os.replace(src, base + ext)
        import shutil
        shutil.rmtree(b.path('_alt'))


def oracle_trials(scn):
    from .. import model
    return model.select(scn)


def stale(b):
    """Products of some earlier run, and a user's file."""
    for n, t in (('peaks.csv', 'period,freq,dm,width,ducy,snr\n1,1,0,1,0.1,9\n'), ('clusters.csv', 'rank\n0\n'),
                 ('candidates.csv', 'old\n'), ('candidate_0000.json', '{"old": 1}'), ('candidate_0007.json', '{}'),
                 ('candidate_0000.png', 'png'), ('readme.txt', 'mine')):
        with open(b.path('out', n), 'w') as f:
            f.write(t)


def execute(ctx, spec):
    scn = spec['scn']
    o = oracle_of(ctx, scn)
    need = len(o.selected) * len(scn['config']['ranges'])
    b = ctx.bench
    inv = spec['invalid']
    run_scn = scn
    if inv:
        sp = spoil(scn, inv[0], inv[1], b)
        if sp is None:
            raise Skip('not applicable to this format')
        run_scn, post = sp
        b.load(run_scn)
        if post:
            apply_post(run_scn, post, b)
    else:
        ctx.load(scn)
    b.reset()
    stale(b)
    before = snapshot(b.path('out'))
    state = {'n': 0, 'bad': None, 'touched': False}

    def watch(sim, p, kind, rel, out):
        if kind == 'kernel' and rel == 'periodogram':
            state['n'] += 1
        mutating = kind in MUT or (kind == 'open' and p.req and any(c in p.req[2].get('mode', '') for c in 'wax+'))
        if mutating and (rel.startswith('out/') or rel == 'out'):
            busy = [q.vpid for q in sim.procs.values() if q.kind == 'worker' and q.task is not None and q is not p
                    and q.state != 'dead']
            if not state['touched'] and state['bad'] is None and not inv:
                if state['n'] < need:
                    state['bad'] = '%s of %s after %d of %d searches' % (kind, rel, state['n'], need)
                elif p.kind == 'main' and busy:
                    state['bad'] = '%s of %s while workers %s are still searching' % (kind, rel, busy)
            state['touched'] = True
    try:
        res = ctx.run([b.pipeline(scn=run_scn)], policy=spec['policy'], faults=spec['faults'], seed=spec['seed'],
                      on_event=watch)
        after = snapshot(b.path('out'))
    finally:
        if inv:
            b.scn = None        # the input files are not those of `scn` any more
    out = outcome(res)
    ctx.digests['last'] = res.digest()
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    ctx.stats['ended: %s' % out] += 1
    ctx.stats['runs that ended before the products stage'] += not state['touched']
    ctx.sample({'invalid': inv and inv[0], 'outcome': out, 'searches': state['n'], 'needed': need,
                'faults': [F.label(f) for f in spec['faults']]})
    if inv:
        ctx.stats['refused: ' + inv[0]] += out == 'error'
        if out == 'ok':
            return [Violation('a run that must be refused (%s) completes' % inv[0], 'P17:accepted:' + inv[0])]
        if changed or state['touched']:
            return [Violation('a run that is refused (%s) changes its output directory: %s' % (inv[0], changed[:4]),
                              'P17:refused-touches')]
        return []
    if state['bad']:
        return [Violation('a product is touched before the whole search has succeeded: %s (run ended: %s)' % (
            state['bad'], out), 'P17:early')]
    if changed and not state['touched']:
        return [Violation('the output directory changed (%s) although the search had not succeeded' % changed[:4],
                          'P17:changed')]
    return []
