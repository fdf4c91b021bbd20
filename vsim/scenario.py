"""
Scenarios: small explicit (JSON) descriptions of input data, configuration and
command line, generated from a PRNG, from which input files are materialised.
"""
import copy
import json
import math
import os
import statistics
import struct

from .util import rng

INF = """ Data file name without suffix          =  {base}
 Telescope used                         =  Parkes
 Instrument used                        =  Multibeam
 Object being observed                  =  {src}
 J2000 Right Ascension (hh:mm:ss.ssss)  =  {raj}
 J2000 Declination     (dd:mm:ss.ssss)  =  {decj}
 Data observed by                       =  Kenji Oba
 Epoch of observation (MJD)             =  {mjd:.6f}
 Barycentered?           (1=yes, 0=no)  =  {bary}
 Number of bins in the time series      =  {nsamp}
 Width of each time series bin (sec)    =  {tsamp!r}
 Any breaks in the data? (1=yes, 0=no)  =  {nbreaks}
{breaks} Type of observation (EM band)          =  Radio
 Beam diameter (arcsec)                 =  981
 Dispersion measure (cm-3 pc)           =  {dm!r}
 Central freq of low channel (Mhz)      =  {fbot!r}
 Total bandwidth (Mhz)                  =  {bw!r}
 Number of channels                     =  {nchan}
 Channel bandwidth (Mhz)                =  {cbw!r}
 Data analyzed by                       =  Space Sheriff Gavan
 Any additional notes:
    Input filterbank samples have 2 bits.
"""


def inf_text(scn, i):
    t = scn['trials'][i]
    b = scn['band']
    br = t.get('breaks') or []
    lines = ''.join(' On/Off bin pair #%3d                   =  %d, %d\n' % (k + 1, x, y) for k, (x, y) in enumerate(br))
    return INF.format(base=os.path.basename(t['base']), src=scn['src'], raj=scn['raj'], decj=scn['decj'], mjd=scn['mjd'],
                      bary=scn.get('bary', 1), nsamp=t['nsamp'], tsamp=t['tsamp'], nbreaks=1 if br else 0,
                      breaks=lines, dm=float(t['dm']), fbot=b['fbot'], bw=abs(b['cbw']) * b['nchan'],
                      nchan=b['nchan'], cbw=b['cbw'])


def sp_str(s):
    b = s.encode()
    return struct.pack('i', len(b)) + b


def sigproc_header(scn, i):
    t = scn['trials'][i]
    sp = scn['sp']
    out = sp_str('HEADER_START')
    items = [('source_name', 's', scn['src']), ('machine_id', 'i', 10), ('telescope_id', 'i', 4),
             ('src_raj', 'd', sp['raj']), ('src_dej', 'd', sp['dej']), ('tstart', 'd', scn['mjd']),
             ('tsamp', 'd', t['tsamp']), ('nbits', 'i', sp['nbits']), ('nchans', 'i', 1), ('nifs', 'i', 1),
             ('refdm', 'd', float(t['dm'])), ('fch1', 'd', 1500.0), ('foff', 'd', -0.5),
             ('data_type', 'i', 2), ('barycentric', 'i', 0)]
    if scn.get('nodm'):
        items = [x for x in items if x[0] != 'refdm']
    if sp['nbits'] == 8:
        items.append(('signed', 'b', 1 if sp['signed'] else 0))
    r = rng('sporder', scn['seed'], i)
    r.shuffle(items)
    for k, ty, v in items:
        out += sp_str(k)
        if ty == 's':
            out += sp_str(v)
        elif ty == 'i':
            out += struct.pack('i', v)
        elif ty == 'd':
            out += struct.pack('d', v)
        else:
            out += struct.pack('B', v)
    return out + sp_str('HEADER_END')


def samples(scn, i):
    """The float32 samples of trial i."""
    import numpy as np
    t = scn['trials'][i]
    n, tsamp = t['nsamp'], t['tsamp']
    g = np.random.Generator(np.random.PCG64(t['seed']))
    x = g.standard_normal(n)
    if t.get('red'):
        k = np.arange(n) / n
        x += t['red'] * np.sin(2 * np.pi * (k * t.get('redf', 1.3) + 0.1 * i))
    time = np.arange(n) * tsamp
    for s in t.get('signals', ()):
        ph = (time / s['period'] - s['phi']) % 1.0
        d = np.minimum(ph, 1 - ph)
        x += s['amp'] * (d < s['ducy'] / 2)
    if scn.get('script'):
        x *= 0.1
        x[script_pos(i)] += 4000.0
    x += t.get('offset', 0.0)
    if scn['fmt'] == 'sigproc' and scn['sp']['nbits'] == 8:
        y = np.round(x * 12)
        if scn['sp']['signed']:
            return np.clip(y, -128, 127).astype(np.int8).astype(np.float32)
        return np.clip(y + 100, 0, 255).astype(np.uint8).astype(np.float32)
    return x.astype(np.float32)


def script_pos(i):
    return 97 + 61 * i


def data_bytes(scn, i):
    import numpy as np
    x = samples(scn, i)
    if scn['fmt'] == 'sigproc' and scn['sp']['nbits'] == 8:
        return x.astype(np.int8 if scn['sp']['signed'] else np.uint8).tobytes()
    return x.tobytes()


def fname(scn, i):
    t = scn['trials'][i]
    return t['base'] + ('.inf' if scn['fmt'] == 'presto' else '.tim')


def materialise(scn, indir, cache=None):
    """Write the input files and the configuration under `indir`."""
    import yaml
    os.makedirs(indir, exist_ok=True)
    for i in range(len(scn['trials'])):
        b = os.path.join(indir, scn['trials'][i]['base'])
        os.makedirs(os.path.dirname(b), exist_ok=True)
        if scn['fmt'] == 'presto':
            with open(b + '.inf', 'w') as f:
                f.write(inf_text(scn, i))
            with open(b + '.dat', 'wb') as f:
                f.write(data_bytes(scn, i))
        else:
            with open(b + '.tim', 'wb') as f:
                f.write(sigproc_header(scn, i) + data_bytes(scn, i))
    with open(os.path.join(indir, 'config.yaml'), 'w') as f:
        yaml.safe_dump(scn['config'], f)


def argv(scn, root, order=None, processes=None, outdir='out', indir='in'):
    """Command line of the pipeline program for this scenario."""
    cli = scn['cli']
    order = scn['order'] if order is None else order
    ab = os.path.join(root, indir)
    rel = os.path.join('..', indir)

    def p(x):
        return os.path.join(rel if cli['relative'] else ab, x)
    out = ['-c', os.path.join(ab, 'config.yaml')]
    if outdir is not None:
        out += ['-o', os.path.join('..', outdir) if cli['relative'] else os.path.join(root, outdir)]
    if cli['logfile']:
        out += ['-f', os.path.join(root, 'cwd', 'run-%s.log' % (outdir or 'x').replace('/', '_'))]
    out += ['--log-level', cli['log_level']]
    if cli['timings']:
        out.append('--log-timings')
    return out + [p(fname(scn, i)) for i in order]


# ------------------------------------------------------------ generator ----

def _round(x, n=6):
    return float('%.*g' % (n, x))


def gen(seed, kind=None, plots=False, max_trials=8, small=False, dense=False, cap=8, min_trials=2, nocand=0.06, lengths=0.2):
    """A random scenario.  kind: 'real' or 'scripted'."""
    r = rng('scenario', seed)
    kind = kind or ('scripted' if r.random() < 0.4 else 'real')
    scn = {'seed': seed, 'kind': kind}
    scn['fmt'] = 'presto' if r.random() < 0.75 else 'sigproc'
    dyadic = kind == 'scripted'
    tsamp = 2.0 ** -10 if dyadic else _round(r.uniform(0.7e-3, 1.6e-3))
    base_n = 8192 if dyadic else r.choice([3000, 4096, 5000, 6144] if small else [4096, 6000, 8192, 10000])
    nt = r.randint(2, 4) if small else r.randint(min_trials, max(min_trials, max_trials))
    scn['band'] = {'fbot': _round(r.choice([400.0, 1182.1953125, 1400.25]) + r.uniform(0, 10)),
                   'cbw': 1.0, 'nchan': r.choice([64, 128, 256])}
    scn['band']['cbw'] = _round(r.choice([1, -1] if r.random() < 0.3 else [1]) * r.uniform(150, 300) / scn['band']['nchan'])
    scn['src'] = r.choice(['J0437-4715', 'Pulsar', 'B1937+21 fake'])
    scn['raj'] = '%02d:%02d:%07.4f' % (r.randrange(24), r.randrange(60), r.uniform(0, 59.9))
    scn['decj'] = '%s%02d:%02d:%07.4f' % (r.choice(['-', '']), r.randint(1, 80), r.randrange(60), r.uniform(0, 59.9))
    scn['mjd'] = round(r.uniform(50000, 60000), 6)
    scn['bary'] = r.randrange(2)
    scn['sp'] = {'nbits': r.choice([32, 32, 8]), 'signed': r.random() < 0.5,
                 'raj': round(r.uniform(0, 235959), 2), 'dej': round(r.uniform(-895959, 895959), 2)}
    if kind == 'scripted':
        scn['sp']['nbits'] = 32
    # keep minutes and seconds below 60
    for k, hi in (('raj', 23), ('dej', 88)):
        sg = -1 if k == 'dej' and r.random() < 0.5 else 1
        scn['sp'][k] = sg * float('%d%02d%05.2f' % (r.randint(1, hi), r.randrange(60), r.uniform(0, 59.9)))

    # ---- search ranges
    nr = r.choice([1, 2, 2, 3])
    ranges = []
    tobs = base_n * tsamp
    if dyadic:
        edges = [0.25, 0.5, 1.0, 2.0][:nr + 1]
    else:
        p0 = r.uniform(0.11, 0.2)
        edges = [_round(p0)]
        for _ in range(nr):
            edges.append(_round(min(edges[-1] * r.uniform(1.6, 2.6), tobs / 3)))
    for k in range(nr):
        a, b = edges[k], edges[k + 1]
        bmin = r.randint(32, 44)
        while bmin * tsamp * 1.01 > a:
            bmin -= 4
        rg = {'name': 'range%d' % k,
              'ffa_search': {'period_min': a, 'period_max': b, 'bins_min': bmin,
                             'bins_max': bmin + r.randint(4, 8)},
              'find_peaks': {'smin': r.choice([6.0, 6.5, 7.0, 8.0])},
              'candidates': {'bins': r.choice([16, 24, 32]),
                             'subints': r.choice([1, 2, 4, 8, 16, 64])}}
        fs = rg['ffa_search']
        if r.random() < 0.5:
            fs['fpmin'] = r.choice([4, 8])
        if r.random() < 0.6:
            fs['wtsp'] = r.choice([1.5, 1.7, 2.0])
        if r.random() < 0.6:
            fs['ducy_max'] = r.choice([0.15, 0.2, 0.3])
        if dyadic:
            rg['find_peaks'].update(minseg=1000000, smin=6.0)
            if r.random() < 0.4:
                rg['find_peaks']['clrad'] = 0.1
        else:
            if r.random() < 0.4:
                rg['find_peaks']['clrad'] = r.choice([0.1, 0.2])
            if r.random() < 0.3:
                rg['find_peaks']['segwidth'] = r.choice([4.0, 6.0])
            if r.random() < 0.3:
                rg['find_peaks']['nstd'] = r.choice([6.0, 7.0])
            if r.random() < 0.3:
                rg['find_peaks']['minseg'] = r.choice([8, 12])
        ranges.append(rg)
    wmin = min(x['ffa_search']['period_min'] / x['ffa_search']['bins_min'] for x in ranges)

    # ---- trials
    b = scn['band']
    f0, f1 = sorted((b['fbot'], b['fbot'] + b['nchan'] * b['cbw']))
    rad = wmin / ((1 / 2.41e-4) * (f0 ** -2 - f1 ** -2))
    dm = r.choice([0.0, 0.0, _round(r.uniform(0.5, 3))])
    trials = []
    pad = r.random() < 0.3
    for i in range(nt):
        n = base_n
        if r.random() < 0.25 and not dyadic:
            n = base_n - r.choice([1, 7, 64, 500])
        t = {'dm': dm, 'nsamp': n, 'tsamp': tsamp, 'seed': r.getrandbits(32)}
        if r.random() < 0.3:
            t['red'] = round(r.uniform(0.5, 3), 2)
        if r.random() < 0.3:
            t['offset'] = round(r.uniform(-5, 5), 2) if scn['sp']['nbits'] == 32 else 0.0
        t['base'] = ('obs_DM%06.2f' % dm if pad else 'obs_%d' % i) + '_%d' % r.randrange(100)
        if r.random() < 0.1 and scn['fmt'] == 'presto' and not dyadic:
            t['breaks'] = [[0, n // 2], [n - 1, n - 1]]
        trials.append(t)
        step = r.choice([0.3, 0.7, 1.2, 1.9, 2.5, 4.0]) * rad * r.uniform(0.8, 1.2)
        dm = round(dm + max(step, 0.02), r.choice([2, 3]))
    if r.random() < 0.2 and not dyadic and nt > 2 and tsamp < 1e-3:
        # one trial with a coarser sampling time
        k = r.randrange(nt)
        trials[k]['tsamp'] = tsamp * 2
        trials[k]['nsamp'] //= 2
        trials[k].pop('breaks', None)
        tm = tsamp * 2
        for rg in ranges:
            a = rg['ffa_search']['period_min']
            while rg['ffa_search']['bins_min'] * tm * 1.01 > a:
                rg['ffa_search']['bins_min'] -= 2
                rg['ffa_search']['bins_max'] -= 2
            while rg['candidates']['bins'] * tm * 1.01 > a:
                rg['candidates']['bins'] -= 4
    scn['trials'] = trials
    # drawn apart: observations of very different lengths, so that the median is not the common value
    ln = rng('lengths', seed)
    if ln.random() < lengths and not any(t.get('breaks') or t['tsamp'] != tsamp for t in trials):
        for t in trials:
            if dyadic:
                t['nsamp'] = base_n * ln.choice([1, 2, 4, 4]) // 2
            elif ln.random() < 0.6:
                t['nsamp'] = int(base_n * ln.uniform(0.6, 0.9))
        tobs = statistics.median(t['nsamp'] * t['tsamp'] for t in trials)
    pall = (edges[0], edges[-1])
    if kind == 'real':
        ns = r.choice([0, 1, 1, 2, 3]) if r.random() < 0.95 else 0
        for _ in range(ns):
            per = _round(r.uniform(pall[0] * 1.02, pall[1] * 0.98))
            dm0 = r.choice(trials)['dm']
            amp = r.uniform(0.8, 2.5)
            duc = r.uniform(0.04, 0.1)
            phi = round(r.random(), 3)
            w = rad * r.uniform(1, 4)
            for t in trials:
                a = amp * math.exp(-((t['dm'] - dm0) / w) ** 2)
                if a > 0.05:
                    t.setdefault('signals', []).append(
                        {'period': per, 'amp': round(a, 4), 'ducy': round(duc, 4), 'phi': phi})
    wid = r.choice([0.25, 0.5, 0.8])
    minpts = r.choice([11, 21, 31, 51])
    tmax = max(t['tsamp'] for t in trials)
    while wid / tmax < 2.2 * minpts:
        minpts -= 10
    conf = {
        'processes': r.choice([1, 2, 2, 3, 3, 4, 5]),
        'data': {'format': scn['fmt'], 'fmin': None, 'fmax': None, 'nchans': None},
        'dmselect': {'min': None, 'max': None, 'dmsinb_max': None},
        'dereddening': {'rmed_width': wid, 'rmed_minpts': minpts},
        'ranges': ranges,
        'clustering': {'radius': 0.25 if dyadic else r.choice([0.1, 0.2, 0.3, 0.5])},
        'harmonic_flagging': {'denom_max': r.choice([10, 20, 100]),
                              'phase_distance_max': r.choice([1.0, 2.0, 3.0]),
                              'dm_distance_max': r.choice([3.0, 10.0, 30.0]),
                              'snr_distance_max': r.choice([3.0, 6.0, 30.0])},
        'candidate_filters': {'dm_min': None, 'snr_min': None, 'remove_harmonics': r.choice([True, False, False, None]),
                              'max_number': None},
        'plot_candidates': False,
    }
    if scn['fmt'] == 'sigproc' or r.random() < 0.15:
        conf['data'].update(fmin=f0, fmax=f1, nchans=b['nchan'])
    dms = [t['dm'] for t in trials]
    if r.random() < 0.3 and nt > 3:
        conf['dmselect']['min'] = dms[1] if r.random() < 0.5 else dms[0] + 0.001
    if r.random() < 0.3 and nt > 3:
        conf['dmselect']['max'] = dms[-2]
    if r.random() < 0.25:
        conf['dmselect']['dmsinb_max'] = r.choice([500.0, 1000.0])
    cf = conf['candidate_filters']
    if r.random() < 0.3:
        cf['dm_min'] = r.choice([0.0, dms[0] + 0.0005, dms[min(1, nt - 1)], dms[-1]])
    if r.random() < 0.3:
        cf['snr_min'] = r.choice([0.0, 7.0, 9.0, 12.0])
    if r.random() < 0.5:
        cf['max_number'] = r.choice([1, 2, 3, 5, 8])
    elif kind == 'real':
        cf['max_number'] = cap         # keeps the runs short
    conf['plot_candidates'] = bool(plots)
    if plots:
        cf['max_number'] = 2
    # drawn apart from the rest: filters that leave no candidate at all
    if rng('nocand', seed).random() < nocand:
        if rng('nocand2', seed).random() < 0.5:
            cf['snr_min'] = 1e4
        else:
            cf['dm_min'] = dms[-1] + 1.0
    scn['config'] = conf
    # input files in several directories, with the same names or not
    d = rng('dirs', seed)
    if d.random() < 0.12:
        same = d.random() < 0.7
        for i, t in enumerate(trials):
            t['base'] = 'd%d/%s' % (i if same else i % 2, 'obs' if same else t['base'])
    scn['order'] = list(range(nt))
    r.shuffle(scn['order'])
    scn['cli'] = {'relative': r.random() < 0.4, 'logfile': r.random() < 0.25,
                  'log_level': r.choice(['DEBUG', 'INFO', 'WARNING']), 'timings': r.random() < 0.3}
    scn['script'] = None
    if kind == 'scripted':
        scn['script'] = gen_script(r, scn, tobs, dense)
    return scn


# --------------------------------------------------- scripted periodograms ----

def rt(f):
    """A frequency close to f for which 1/(1/f) == f."""
    for k in range(200):
        g = f * (1 + k * 2.0 ** -40) if k else f
        if 1.0 / (1.0 / g) == g:
            return g
    return f


def gen_script(r, scn, tobs, dense=False):
    """Peaks (freq, width index, S/N) of each trial and range, built around exact
    ties, harmonic relations and distances on either side of every threshold."""
    conf = scn['config']
    ranges = conf['ranges']
    nt = len(scn['trials'])
    clr = conf['clustering']['radius'] / tobs
    pmin, pmax = ranges[0]['ffa_search']['period_min'], ranges[-1]['ffa_search']['period_max']
    out = {}
    used = {}

    def rng_of(f):
        p = 1.0 / f
        for k, g in enumerate(ranges):
            if g['ffa_search']['period_min'] <= p < g['ffa_search']['period_max']:
                return k
        return 0 if p < pmin else len(ranges) - 1

    def add(i, f, iw, snr):
        f = rt(f)
        k = rng_of(f)
        key = '%d/%d' % (i, k)
        # within one trial and width, peak finding itself merges close points
        for g, w, _ in out.get(key, ()):
            if w == iw and abs(g - f) * scn['trials'][i]['nsamp'] * scn['trials'][i]['tsamp'] <= 0.15:
                return
            if g == f and w == iw:
                return
        out.setdefault(key, []).append([f, iw, float(snr)])

    snrs = [8.0, 10.0, 10.0, 12.0, 12.5, 16.0, 20.0, 24.0, 32.0]
    funds = []
    for _ in range(r.randint(1, 4)):
        f = r.choice([0.625, 0.75, 1.0, 1.25, 1.5, 2.0, 2.5, 3.0, 1.75, 3.5]) + r.choice([0, 0, 2 ** -7, 3 * 2.0 ** -8])
        f = min(max(f, 1.0 / pmax * 1.02), 1.0 / pmin * 0.99)
        funds.append((f, r.randrange(nt), r.choice(snrs)))
    for f, i, s in funds:
        iw = r.randrange(3)
        add(i, f, iw, s)
        # relatives: harmonics and sub-harmonics
        for _ in range(r.randint(0, 4)):
            num, den = r.choice([(2, 1), (3, 1), (1, 2), (3, 2), (2, 3), (1, 3), (4, 3), (5, 4)])
            h = f * num / den
            ex = s / math.sqrt(num * den)
            h += r.choice([0, 0, 1, -1, 3]) * r.choice([0.001, 0.01, 0.05]) / tobs
            if not (1.0 / pmax < h <= 1.0 / pmin):
                continue
            ds = r.choice([0.0, 0.5, -0.5, 2.9, -2.9, 3.1, -3.1, 6.5])
            sn = max(6.25, ex + ds)
            add(r.choice([i, i, max(0, i - 1), min(nt - 1, i + 1), r.randrange(nt)]), h, r.randrange(3), sn)
        # neighbours at clustering distance
        for _ in range(r.randint(0, 3)):
            k = r.choice([1, 1, 2, -1])
            d = clr * k * r.choice([1.0, 1.0, 0.5, 1.25, 1 + 2.0 ** -20])
            j = r.randrange(nt)
            add(j, f + d, r.randrange(3), r.choice([s, s, s / 2, s - 1]) if r.random() < 0.7 else r.choice(snrs))
        # same frequency elsewhere, tied S/N
        for _ in range(r.randint(0, 2)):
            add(r.randrange(nt), f, r.randrange(3), r.choice([s, s, s - 0.5]))
    if dense:
        # every trial has something to report in every range
        for i in range(nt):
            for g in ranges:
                a, b = g['ffa_search']['period_min'], g['ffa_search']['period_max']
                f = r.uniform(1.0 / b * 1.02, 1.0 / a * 0.98)
                add(i, round(f * 1024) / 1024, r.randrange(3), r.choice(snrs))
    # stragglers
    for _ in range(r.randint(0, 5)):
        f = r.uniform(1.0 / pmax * 1.02, 1.0 / pmin * 0.99)
        add(r.randrange(nt), round(f * 256) / 256, r.randrange(3), r.choice(snrs))
    if r.random() < 0.5:
        # exactly on a range boundary, or just outside the covered periods
        e = r.choice([g['ffa_search']['period_max'] for g in ranges])
        add(r.randrange(nt), 1.0 / e, 0, r.choice(snrs))
    if r.random() < 0.3:
        key = '%d/%d' % (r.randrange(nt), len(ranges) - 1)
        out.setdefault(key, []).append([rt(1.0 / (pmax * 1.01)), 1, r.choice(snrs)])
    if r.random() < 0.15:
        # one large cluster
        n = r.choice([60, 130, 260])
        step = max(0.053 / nt / tobs, clr * r.choice([0.1, 0.3, 0.6]))
        f = r.uniform(1.0 / pmax * 1.02, 1.0 / pmin * 0.6)
        s = r.choice(snrs)
        for k in range(n):
            f += step * r.choice([1.0, 1.0, 1.25])
            if f > 0.99 / pmin:
                break
            add(k % nt, f, (k // nt) % 3, s if r.random() < 0.05 else r.uniform(6.25, s))
    return {'peaks': out}


def stub_periodogram(scn):
    """Replacement for libcpp.periodogram: the scripted spectrum of the trial the
    data belong to.  Falls back on the real kernel for anything unexpected."""
    import numpy as np
    ranges = scn['config']['ranges']
    script = scn['script']['peaks']
    pos = {script_pos(i): i for i in range(len(scn['trials']))}

    def stub(name, real, args, kw):
        if name != 'periodogram':
            return real(*args, **kw)
        try:
            data, tsamp, widths, pmin, pmax, bmin, bmax = args
            i = pos[int(np.argmax(np.asarray(data)))]
            k = next(k for k, g in enumerate(ranges)
                     if g['ffa_search']['period_min'] == pmin and g['ffa_search']['period_max'] == pmax)
        except Exception:
            return real(*args, **kw)
        widths = np.asarray(widths)
        peaks = script.get('%d/%d' % (i, k), [])
        tobs = len(data) * tsamp
        f_hi, f_lo = 1.0 / pmin, 1.0 / pmax
        grid = set(np.linspace(f_lo, f_hi, max(32, int((f_hi - f_lo) * tobs * 4))).tolist())
        pf = {f for f, _, _ in peaks}
        grid = {g for g in grid if all(abs(g - f) > 1e-9 for f in pf)} | pf
        fr = np.array(sorted(grid, reverse=True))
        periods = 1.0 / fr
        foldbins = np.full(len(fr), bmin, dtype=np.uint32)
        snrs = np.zeros((len(fr), len(widths)), dtype=np.float32)
        for f, iw, s in peaks:
            j = int(np.argmin(abs(fr - f)))
            if iw < len(widths):
                snrs[j, iw] = s
        return periods, foldbins, snrs
    return stub


def with_(scn, **changes):
    """Deep copy with dotted-path changes, e.g. with_(s, **{'config.processes': 2})"""
    s = copy.deepcopy(scn)
    for k, v in changes.items():
        d = s
        parts = k.split('.')
        for p in parts[:-1]:
            d = d[p]
        d[parts[-1]] = v
    return s


def dumps(scn):
    return json.dumps(scn, sort_keys=True)


def materialise_config(scn, indir):
    import yaml
    with open(os.path.join(indir, 'config.yaml'), 'w') as f:
        yaml.safe_dump(scn['config'], f)
