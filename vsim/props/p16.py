import math
import os
import shutil

from .. import core, faults as F, model, scenario as S
from ..engine import Skip, Violation
from ..seams import STATE
from ..util import rng, sha

UNITS = {'quick': 240, 'thorough': 6000}
PER_UNIT = {'quick': 7, 'thorough': 14}
LEVEL = 'exploration'
RULE = ('a unit is a set of input files; each execution is a process that runs the single-file search one to three times '
        'with random options on them (in a third of the units the files are replaced between runs), under random read, write and allocation faults; every report (printed and '
        'returned) is compared with the library results grouped by an independent model; non-trivial = distinct '
        'histories of operations and outcomes')
REAL = ('rseek program (argument parsing, loading, search, peak finding, grouping, printing), compiled kernels, Python '
        'buffered and text I/O, file system')
STUB = ('raw file operations and standard output (simulator decides outcome, then performed for real), clock, pid; in '
        'part of the runs a prescribed set of S/N spikes is added to the output of the periodogram kernel')
ASSUME = ['the values of single peaks are those of the library functions ffa_search and find_peaks, run alone in a fresh '
          'process on the samples written to the input file']

DEFAULTS = {'Pmin': 1.0, 'Pmax': 10.0, 'bmin': 240, 'bmax': 260, 'smin': 7.0, 'wtsp': 1.5, 'rmed_width': 4.0,
            'rmed_minpts': 101, 'clrad': 0.2}


def gen_data(r):
    fmt = r.choice(['presto', 'presto', 'sigproc'])
    big = r.random() < 0.3
    trials = []
    for i in range(r.randint(1, 2)):
        tsamp = 0.002 if big else r.choice([0.01, 0.008, 0.0101, 0.02])
        n = r.randint(6000, 12000) if big else r.randint(1500, 6000)
        sig = []
        for _ in range(r.randint(0, 3)):
            p = r.uniform(1.0, 2.5) if big else r.uniform(0.4, 2.0)
            sig.append({'period': p, 'phi': r.random(), 'ducy': r.choice([0.02, 0.05, 0.15]),
                        'amp': r.choice([0.7, 1.5, 4.0])})
        trials.append({'base': 'f%d' % i, 'nsamp': n, 'tsamp': tsamp, 'dm': round(r.choice([0.0, r.uniform(0, 300)]), 3),
                       'seed': r.getrandbits(32), 'signals': sig, 'red': r.choice([0, 0, 3.0, 15.0]),
                       'offset': r.choice([0.0, 0.0, 100.0])})
    return {'fmt': fmt, 'trials': trials, 'src': r.choice(['J1234-56', 'fake psr', 'X']), 'seed': r.getrandbits(32),
            'raj': '12:34:56.7800', 'decj': r.choice(['-00:30:12.5000', '45:01:02.0000']), 'mjd': 59000.123456,
            'band': {'fbot': 1214.0, 'cbw': 0.5, 'nchan': 512},
            'nodm': r.random() < 0.15,
            'sp': {'nbits': r.choice([8, 32, 32]), 'signed': r.random() < 0.5, 'raj': 123456.78, 'dej': -3012.5}}


def gen_args(r, scn):
    i = r.randrange(len(scn['trials']))
    t = scn['trials'][i]
    tobs = t['nsamp'] * t['tsamp']
    o = {}
    if t['tsamp'] > 0.004 or r.random() < 0.5:
        o['bmin'] = r.choice([16, 24, 32, 40, 50])
        o['bmax'] = o['bmin'] + r.choice([2, 4, 8])
        if r.random() < 0.1:
            o['bmax'] = o['bmin'] * 2
        o['Pmin'] = round(t['tsamp'] * o['bmin'] * r.uniform(1.001, 1.8), 6)
        o['Pmax'] = round(o['Pmin'] * r.uniform(1.2, 4.0), 6)
        if r.random() < 0.1:
            o['Pmax'] = round(tobs * r.uniform(0.5, 1.3), 3)
    else:
        if r.random() < 0.5:
            o['Pmin'] = r.choice([0.7, 1.0, 1.1])
        if r.random() < 0.5:
            o['Pmax'] = r.choice([2.0, 4.0, 8.0])
    if r.random() < 0.6:
        o['smin'] = r.choice([4.0, 5.5, 6.0, 7.0, 9.0, 30.0])
    if r.random() < 0.4:
        o['wtsp'] = r.choice([1.2, 1.5, 2.0, 3.0])
    if r.random() < 0.7 or o.get('bmin'):
        o['rmed_width'] = r.choice([0.5, 1.0, 2.0, 4.0, 6.0])
        # an odd number of samples, as the library requires
        k = int(round(o['rmed_width'] / t['tsamp']))
        o['rmed_width'] = round((k | 1) * t['tsamp'], 9)
    if r.random() < 0.4:
        o['rmed_minpts'] = r.choice([11, 51, 101, 201])
        if r.random() < 0.05:
            o['rmed_minpts'] = 100
    if r.random() < 0.6:
        o['clrad'] = r.choice([0.05, 0.1, 0.2, 0.5, 1.0, 3.0])
    spikes = None
    if r.random() < 0.6:
        spikes = {'seed': r.getrandbits(32), 'n': r.choice([1, 3, 10, 40])}
    return {'trial': i, 'opts': o, 'spikes': spikes, 'call': r.choice(['main', 'main', 'run_program'])}


def plan(ctx, r, tier, unit):
    scn = gen_data(r)
    other = None
    if unit % 3 == 0:
        # the input files are replaced between the runs of a process
        other = dict(gen_data(r), fmt=scn['fmt'])
    pool = [gen_args(r, scn) for _ in range(3)]
    if other:
        pool = [dict(a, d=0) for a in pool[:2]] + [dict(gen_args(r, other), d=1) for _ in range(2)]
    for k in range(PER_UNIT[tier]):
        n = r.choice([2, 2, 3] if other else [1, 1, 2, 3])
        runs = [dict(r.choice(pool)) for _ in range(n)]
        fl = []
        x = r.random()
        if k and x < 0.55:
            y = r.random()
            if y < 0.2:
                fl.append({'at': {'op': 'open', 'rel': 'in/*', 'nth': r.randint(1, 2 * n)},
                           'act': {'t': 'errno', 'e': r.choice(F.OPEN_R)}})
            elif y < 0.5:
                fl.append({'at': {'op': 'read', 'rel': 'in/*', 'nth': r.randint(1, 4 * n)}, 'act': {'t': 'errno', 'e': 5}})
                if r.random() < 0.5:
                    fl.insert(0, {'at': {'op': 'read', 'rel': 'in/*', 'every': True},
                                  'act': {'t': 'short', 'k': r.choice([100, 700, 4096])}})
            elif y < 0.85:
                fl.append({'at': {'op': 'write', 'rel': 'tmp/report*', 'nth': r.randint(1, 2 * n)},
                           'act': {'t': 'errno', 'e': r.choice(F.WRITE + [32]), 'k': r.choice([0, 0, 1, 60])}})
            else:
                fl.append({'at': {'op': 'kernel', 'nth': r.randint(1, 2 * n)}, 'act': {'t': 'mem'}})
        elif k and x < 0.8:
            fl.append({'at': {'op': 'read', 'rel': 'in/*', 'every': True},
                       'act': {'t': 'short', 'k': r.choice([50, 100, 511, 4096])}}
                      if r.random() < 0.5 else
                      {'at': {'op': 'write', 'rel': 'tmp/report*', 'every': True},
                       'act': {'t': 'short', 'k': r.choice([1, 7, 100])}})
        yield {'data': scn, 'other': other, 'runs': runs, 'faults': fl, 'seed': r.getrandbits(32),
               'buffering': r.choice([-1, -1, 1, 128])}


def nodm(scn):
    return scn['fmt'] == 'sigproc' and bool(scn.get('nodm'))


def unknown(x):
    """Anything but a number."""
    try:
        return not math.isfinite(float(x))
    except (TypeError, ValueError):
        return True


def argv(scn, a, root):
    out = ['-f' if len(a['opts']) % 2 else '--format', scn['fmt']]
    for k, v in a['opts'].items():
        out += ['--' + k, repr(v)]
    return out + [os.path.join(root, 'in', S.fname(scn, a['trial']))]


def spiked(sp):
    import numpy as np

    def stub(name, real, args, kw):
        out = real(*args, **kw)
        if name != 'periodogram' or len(out) != 3:
            return out
        periods, foldbins, snrs = out
        snrs = np.array(snrs)
        if not snrs.size:
            return out
        g = np.random.Generator(np.random.PCG64(sp['seed']))
        n, m = snrs.shape
        for _ in range(sp['n']):
            i = int(g.integers(n))
            for _ in range(int(g.integers(1, 4))):
                j = min(n - 1, max(0, i + int(g.integers(-3, 4))))
                snrs[j, int(g.integers(m))] = 8.0 + 60.0 * g.random()
        return periods, foldbins, snrs
    return stub


def reference(scn, a):
    """[rows] in the order of the report, or raises."""
    from riptide import TimeSeries, ffa_search, find_peaks
    if a['spikes']:
        STATE.kernel_stub = spiked(a['spikes'])
    t = scn['trials'][a['trial']]
    o = dict(DEFAULTS, **a['opts'])
    ts = TimeSeries(S.samples(scn, a['trial']), t['tsamp'], metadata={'dm': None if nodm(scn) else float(t['dm'])})
    _, pg = ffa_search(ts, period_min=o['Pmin'], period_max=o['Pmax'], bins_min=o['bmin'], bins_max=o['bmax'],
                       rmed_width=o['rmed_width'], rmed_minpts=o['rmed_minpts'], wtsp=o['wtsp'], fpmin=1, ducy_max=0.3)
    peaks, _ = find_peaks(pg, smin=o['smin'], clrad=o['clrad'])
    return [{k: getattr(p, k) for k in model.PEAK_KEYS} for p in peaks]


def grouped(peaks, r):
    ps = sorted(peaks, key=lambda p: p['freq'])
    groups = []
    for p in ps:
        if groups:
            gap = p['freq'] - groups[-1][-1]['freq']
            if abs(gap - r) < 1e-9 * max(r, 1e-12):
                raise model.Ambiguous('frequency gap at the clustering radius')
            if gap <= r:
                groups[-1].append(p)
                continue
        groups.append([p])
    rows = []
    for g in groups:
        best = max(p['snr'] for p in g)
        top = [p for p in g if p['snr'] == best]
        if len(top) > 1:
            raise model.Ambiguous('equally bright peaks')
        rows.append(top[0])
    rows.sort(key=lambda p: -p['snr'])
    if len({p['snr'] for p in rows}) < len(rows):
        raise model.Ambiguous('equally bright groups')
    return rows


def expected(ctx, scn, a):
    def fn():
        st, v = model.isolated(reference, scn, a)
        if st == 'err':
            if 'died' in v:
                raise Skip('reference ' + v)
            return ('err', v)
        t = scn['trials'][a['trial']]
        clrad = dict(DEFAULTS, **a['opts'])['clrad']
        return ('ok', grouped(v, clrad / (t['nsamp'] * t['tsamp'])))
    return ctx.cached('rseek', {'d': scn, 'a': dict(a, call='')}, fn)


def check_text(text, rows, smin):
    lines = [x for x in text.split('\n') if x.strip()]
    if not rows:
        if lines != ['No peaks found above S/N = %.2f' % smin]:
            return 'no significant peak exists, but it prints %r' % text[:300]
        return None
    if not lines or lines[0].split() != ['period', 'freq', 'width', 'ducy', 'dm', 'snr']:
        return 'the table starts with %r' % (lines[:1],)
    if len(lines) - 1 != len(rows):
        return '%d rows printed, %d groups of peaks exist' % (len(lines) - 1, len(rows))
    for k, (ln, row) in enumerate(zip(lines[1:], rows)):
        tok = ln.split()
        if len(tok) != 6:
            return 'row %d reads %r' % (k, ln)
        for name, s in zip(('period', 'freq', 'width', 'ducy', 'dm', 'snr'), tok):
            if row[name] is None:
                if not unknown(s):
                    return 'row %d: the file gives no %s, it is printed as %r' % (k, name, s)
                continue
            v = float(row[name])
            if name == 'ducy':
                if not s.endswith('%'):
                    return 'row %d: duty cycle printed as %r' % (k, s)
                s, v = s[:-1], 100 * v
            nd = len(s.split('.')[1]) if '.' in s else 0
            try:
                bad = abs(float(s) - v) > 0.5000001 * 10.0 ** -nd + 1e-12 or nd < {'width': 0, 'snr': 1, 'dm': 2, 'ducy': 2}.get(name, 9)
            except ValueError:
                bad = True
            if bad:
                return 'row %d: %s printed as %r, it is %r' % (k, name, s, v)
    return None


def check_frame(df, rows):
    if not rows:
        return None if df is None else 'returns %r although there is no significant peak' % (df,)
    if df is None:
        return 'returns None, %d groups of peaks exist' % len(rows)
    if len(df) != len(rows):
        return 'returns %d rows, %d groups of peaks exist' % (len(df), len(rows))
    for k, (d, row) in enumerate(zip(df, rows)):
        for name in model.PEAK_KEYS:
            if name in d and row[name] is None and unknown(d[name]):
                continue
            if name not in d or row[name] is None or abs(float(d[name]) - float(row[name])) > 1e-9 * max(1.0, abs(float(row[name]))):
                return 'returns row %d with %s = %r, it is %r' % (k, name, d.get(name), row[name])
    return None


def execute(ctx, spec):
    datas = [spec['data'], spec.get('other')]
    exp = [expected(ctx, datas[a.get('d', 0)], {k: v for k, v in a.items() if k != 'd'}) for a in spec['runs']]
    b = ctx.bench
    key = sha(S.dumps(datas))
    if getattr(ctx, 'p16', None) != key:
        b.load(dict(datas[0], config={}))
        for k, data in enumerate(datas):
            shutil.rmtree(b.path('alt%d' % k), ignore_errors=True)
            if data:
                os.mkdir(b.path('alt%d' % k))
                S.materialise(dict(data, config={}), b.path('alt%d' % k))
        ctx.p16 = key
    b.reset()
    root = b.root
    if datas[1]:
        shutil.rmtree(b.path('in'))
        shutil.copytree(b.path('alt%d' % spec['runs'][0].get('d', 0)), b.path('in'))

    def put(k):
        STATE.busy = True
        try:
            shutil.rmtree(os.path.join(root, 'in'))
            shutil.copytree(os.path.join(root, 'alt%d' % k), os.path.join(root, 'in'))
        finally:
            STATE.busy = False

    def fn():
        import gc
        import sys
        import riptide.apps.rseek as m
        outs = []
        for k, a in enumerate(spec['runs']):
            scn = datas[a.get('d', 0)]
            if k and a.get('d', 0) != spec['runs'][k - 1].get('d', 0):
                put(a.get('d', 0))
            STATE.kernel_stub = spiked(a['spikes']) if a['spikes'] else None
            so = sys.stdout
            n0 = sorted(STATE.openfiles.values())
            sys.stdout = f = open(os.path.join(root, 'tmp', 'report%d' % k), 'w', spec['buffering'])
            st = {}
            try:
                if a['call'] == 'main':
                    sys.argv = ['rseek'] + argv(scn, a, root)
                    m.main()
                else:
                    df = m.run_program(m.get_parser().parse_args(argv(scn, a, root)))
                    st['df'] = None if df is None else df.to_dict('records')
                # what the interpreter does when the program returns
                f.flush()
                st['status'] = 'ok'
            except SystemExit as e:
                st['status'] = 'ok' if e.code in (None, 0) else 'error'
                st['exc'] = 'SystemExit(%r)' % (e.code,)
            except Exception as e:
                st.update(status='error', exc=type(e).__name__, msg=str(e)[:300])
            sys.stdout = so
            try:
                f.close()
            except Exception:
                pass
            gc.collect()
            st['leak'] = [x for x in sorted(STATE.openfiles.values()) if x not in n0 and not x.startswith('tmp/report')]
            outs.append(st)
        return outs
    res = ctx.run([{'name': 'main', 'fn': fn}], faults=spec['faults'], seed=spec['seed'])
    ctx.digests['last'] = sha(res.digest())
    m = res.mains.get('main', {})
    if res.status in ('steps', 'wall'):
        raise Skip(res.status)
    if res.status != 'done':
        return [Violation('the program never ends: %s %s' % (res.status, res.detail), 'P16:hang')]
    if m.get('status') == 'killed' or m.get('signal'):
        return [Violation('the program dies from signal %s' % m.get('signal'), 'P16:crash')]
    if m.get('status') != 'ok':
        raise core.HarnessError('%s %s' % (m, b.std('main')))
    hard = [f for f in res.fired if f['t'] not in ('short', 'stall', 'clock')]
    ctx.sample({'runs': [dict(a['opts']) for a in spec['runs']], 'groups': [len(v) if s == 'ok' else v for s, v in exp],
                'outcomes': [o.get('exc') or o['status'] for o in m['ret']], 'faults': [F.label(f) for f in spec['faults']]})
    errs = 0
    for k, (a, (es, rows), o) in enumerate(zip(spec['runs'], exp, m['ret'])):
        scn = datas[a.get('d', 0)]
        ctx.stats['runs after the input was replaced'] += bool(k and a.get('d', 0) != spec['runs'][k - 1].get('d', 0))
        who = 'run %d of %d in one process (%s)' % (k + 1, len(exp), ' '.join(argv(scn, a, '')))
        ctx.stats['reports: ' + o['status']] += 1
        if o['status'] == 'error':
            if es == 'err':
                continue
            errs += 1
            if errs > len(hard):
                return [Violation('%s fails with %s: %s, but nothing went wrong%s' % (
                    who, o.get('exc'), o.get('msg'), ' (short transfers only)' if res.fired else ''), 'P16:fails')]
            continue
        with open(b.path('tmp', 'report%d' % k)) as f:
            text = f.read()
        faults = ['%s of %s fails' % (f['op'], f['rel']) for f in hard]
        if es == 'err':
            return [Violation('%s reports %r although the search is impossible: %s' % (who, text[:200], rows), 'P16:report')]
        ctx.stats['reported groups'] += len(rows)
        bad = check_text(text, rows, dict(DEFAULTS, **a['opts'])['smin'])
        if not bad and a['call'] != 'main':
            bad = check_frame(o['df'], rows)
        if bad:
            return [Violation('%s ends normally%s: %s' % (who, (' (%s)' % '; '.join(faults)) if faults else '', bad),
                              'P16:report')]
        if o['leak']:
            return [Violation('%s leaves %s open' % (who, o['leak']), 'P16:leak')]
    return []


def shrinks(spec):
    import copy
    for key in ('faults', 'runs'):
        for i in range(len(spec[key])):
            if key == 'runs' and len(spec[key]) == 1:
                continue
            s = copy.deepcopy(spec)
            del s[key][i]
            yield s
    for i, a in enumerate(spec['runs']):
        for o in ('smin', 'wtsp', 'rmed_minpts', 'clrad'):
            if o in a['opts']:
                s = copy.deepcopy(spec)
                del s['runs'][i]['opts'][o]
                yield s
        if a['spikes']:
            s = copy.deepcopy(spec)
            s['runs'][i]['spikes'] = None
            yield s
    if spec['buffering'] != -1:
        s = copy.deepcopy(spec)
        s['buffering'] = -1
        yield s
