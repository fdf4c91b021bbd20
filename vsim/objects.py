"""
Random library objects (time series, periodograms, candidates and compositions of
these), described by JSON specifications, and an exact canonical form of them.
"""
import hashlib
import math
import random

from .util import rng


def _txt(r):
    return r.choice(['J1234-56', '', 'é±中', 'a "quoted" \\ name', 'line\nbreak\ttab', '__type__', 'x' * r.randint(1, 90),
                     'NaN', '\u2028', '{"a": 1}', 'null'])


def gen_extra(r, depth=0):
    k = r.randrange(9 if depth < 2 else 7)
    if k == 0:
        return r.choice([0, -1, 7, 2 ** 40, -2 ** 70])
    if k in (1, 2):
        return r.choice([0.1, -1e-300, 1.7976931348623157e308, 5e-324, 1 / 3, float('inf'), float('-inf'), r.random(),
                         123456789.123456789])
    if k == 3:
        return None
    if k == 4:
        return r.random() < 0.5
    if k in (5, 6):
        return _txt(r)
    if k == 7:
        return [gen_extra(r, depth + 1) for _ in range(r.randint(0, 3))]
    return {'k%d' % i: gen_extra(r, depth + 1) for i in range(r.randint(0, 3))}


def gen_meta(r, dm=True):
    m = {}
    if dm or r.random() < 0.5:
        m['dm'] = r.choice([0.0, 12.5, round(r.uniform(0, 3000), 3), r.uniform(0, 100)])
    if r.random() < 0.7:
        m['source_name'] = _txt(r)
    if r.random() < 0.7:
        m['mjd'] = r.choice([59000.5, r.uniform(40000, 60000)])
    if r.random() < 0.7:
        m['skycoord'] = [r.uniform(0, 360), r.uniform(-90, 90)] if r.random() < 0.8 else r.choice(
            [[0.0, 0.0], [359.9999999999, -90.0], [180.0, 90.0]])
        if r.random() < 0.2:
            m['skycoord'] = m['skycoord'] + [r.choice(['galactic', 'fk5', 'fk4'])]
    if r.random() < 0.5:
        m['fname'] = '/data/' + _txt(r)
    for i in range(r.randint(0, 4)):
        m['extra%d' % i] = gen_extra(r)
    return m


def large(r):
    """Sizes beyond which buffers, blocks and thresholds of the code are crossed."""
    return r.choice([4097, 5000, 9001, 16385, 33333, 70001, 200003])


def gen_ts(r, big=False):
    n = large(r) if big is False and r.random() < 0.06 else r.randint(900, 2600) if big else r.choice([2, 3, 17, r.randint(30, 400), r.randint(400, 1200)])
    return {'k': 'ts', 'n': n, 'seed': r.getrandbits(32), 'tsamp': r.choice([0.01, 0.000256, 0.0100001, 1.0, 0.25]),
            'dtype': r.choice(['f4', 'f4', 'f8', 'i4', 'u1', 'f4s', 'list']), 'meta': gen_meta(r),
            'amp': r.choice([0.0, 1.0, 5.0]), 'special': r.random() < 0.08, 'copy': r.random() < 0.5}


def gen_pg(r):
    if r.random() < 0.5:
        w = r.randint(1, 7)
        return {'k': 'pg', 'm': r.choice([1, 2, 5, r.randint(3, 60)]) if r.random() < 0.9 else large(r) // w + 1, 'w': w,
                'seed': r.getrandbits(32), 'meta': gen_meta(r), 'tobs': r.choice([10.0, 123.456]),
                'order': r.choice('CCFS'), 'dt': r.choice(['f4', 'f4', 'f8', '>f4'])}
    t = gen_ts(r, big=True)
    t.update(tsamp=0.01, special=False)
    b = r.choice([8, 12, 16])
    return {'k': 'pgs', 'ts': t, 'bins': [b, b + r.choice([1, 2, 4])], 'p': [round(0.0101 * b, 5), round(0.0101 * b * r.uniform(1.05, 1.6), 5)]}


def gen_cand(r):
    return {'k': 'cand', 'seed': r.getrandbits(32), 'npk': r.choice([1, 1, 2, 5, 30]) if r.random() < 0.96 else 900,
            'meta': gen_meta(r), 'sub': r.choice([[16], [1, 8], [4, 16], [3, 7], [9, 32]]) if r.random() < 0.94 else [300, 64], 'f8': r.random() < 0.3, 'order': r.choice('CCF'),
            'nodm': r.random() < 0.15, 'tobs': r.choice([10.0, 99.9])}


def gen(r, depth=0):
    k = r.random()
    if depth < 2 and k < 0.25:
        return {'k': 'list', 'v': [gen(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3]))]}
    if depth < 2 and k < 0.45:
        return {'k': 'dict', 'v': [[r.choice(['a', 'cand', 'é', '', 'x y']) + str(i), gen(r, depth + 1)]
                                   for i in range(r.choice([0, 1, 2, 3]))]}
    if depth > 0 and k < 0.55:
        return {'k': 'val', 'v': gen_extra(r)}
    return r.choice([gen_ts, gen_ts, gen_pg, gen_cand, gen_cand])(r)


def build_meta(m):
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    out = dict(m)
    if out.get('skycoord') is not None:
        c = out['skycoord']
        out['skycoord'] = SkyCoord(c[0] * u.deg, c[1] * u.deg, frame=c[2] if len(c) > 2 else 'icrs')
    return out


def build(s):
    """The object a specification describes."""
    import numpy as np
    import pandas
    import riptide
    k = s['k']
    if k == 'list':
        return [build(v) for v in s['v']]
    if k == 'dict':
        return {a: build(v) for a, v in s['v']}
    if k == 'val':
        return s['v']
    if k == 'ts':
        g = np.random.Generator(np.random.PCG64(s['seed']))
        x = g.standard_normal(s['n']) * 20 + s['amp'] * (np.arange(s['n']) % 23 == 0)
        if s['special']:
            x[:2] = [np.inf, np.nan]
        d = s['dtype']
        if d == 'f4s':
            x = np.repeat(x.astype('f4'), 2)[::2]
        elif d == 'list':
            x = [float(v) for v in x]
        elif d == 'u1':
            x = np.clip(np.nan_to_num(x) + 100, 0, 255).astype('u1')
        elif d == 'i4':
            x = (np.nan_to_num(x, posinf=0) * 1000).astype('i4')
        else:
            x = x.astype(d)
        return riptide.TimeSeries(x, s['tsamp'], metadata=build_meta(s['meta']), copy=s['copy'])
    if k == 'pg':
        g = np.random.Generator(np.random.PCG64(s['seed']))
        widths = np.arange(1, s['w'] + 1)
        m = riptide.Metadata(dict(build_meta(s['meta']), tobs=s['tobs']))
        snrs = g.standard_normal((s['m'], s['w'])).astype(s.get('dt', 'f4'))
        per, fb = np.sort(g.random(s['m'])) + 0.5, g.integers(16, 20, s['m']).astype(np.uint32)
        if s.get('order') == 'F':
            snrs = np.asfortranarray(snrs)
        elif s.get('order') == 'S':
            # every other element of larger arrays
            snrs, per = np.repeat(snrs, 2, axis=0)[::2], np.repeat(per, 3)[::3]
        return riptide.Periodogram(widths, per, fb, snrs, metadata=m)
    if k == 'pgs':
        ts = build(s['ts'])
        return riptide.ffa_search(ts, period_min=s['p'][0], period_max=s['p'][1], bins_min=s['bins'][0],
                                  bins_max=s['bins'][1], deredden=False)[1]
    if k == 'cand':
        r = random.Random(s['seed'])
        g = np.random.Generator(np.random.PCG64(s['seed']))
        dm = None if s['nodm'] else 3.5
        rows = []
        for i in range(s['npk']):
            p = r.uniform(0.5, 2)
            rows.append({'period': p, 'freq': 1 / p, 'dm': dm if r.random() < 0.5 or s['nodm'] else r.uniform(0, 9),
                         'width': r.randint(1, 9), 'ducy': r.random(), 'snr': r.uniform(6, 50)})
        top = max(rows, key=lambda x: x['snr'])
        x = g.standard_normal(s['sub']).astype('f8' if s['f8'] else 'f4')
        if s['order'] == 'F' and x.ndim == 2:
            x = np.asfortranarray(x)
        m = riptide.Metadata(dict(build_meta(s['meta']), tobs=s['tobs']))
        return riptide.Candidate(dict(top), m, pandas.DataFrame.from_dict(rows), x)
    raise ValueError(k)


def canon(o, deep=True):
    """Exact, order-insensitive canonical form, equal for equal objects."""
    import numpy as np
    import pandas
    from astropy.coordinates import SkyCoord
    import riptide
    if isinstance(o, riptide.TimeSeries):
        return ('TimeSeries', canon(o.data), canon(o.tsamp), canon(o.nsamp), canon(o.length), canon(dict(o.metadata)))
    if isinstance(o, riptide.Periodogram):
        return ('Periodogram', canon(o.widths), canon(o.periods), canon(o.foldbins), canon(o.snrs), canon(dict(o.metadata)))
    if isinstance(o, riptide.Candidate):
        return ('Candidate', canon(o.params), canon(dict(o.tsmeta)), canon(o.peaks), canon(o.subints))
    if isinstance(o, np.ndarray):
        if o.dtype.hasobject:
            return ('objects', o.shape, tuple(canon(x) for x in o.ravel().tolist()))
        b = np.ascontiguousarray(o).tobytes()
        return ('array', o.dtype.str, o.shape, hashlib.sha256(b).hexdigest() if len(b) > 64 else b.hex())
    if isinstance(o, pandas.DataFrame):
        v = o.values
        if v.dtype.hasobject:
            return ('table', tuple(o.columns), v.shape, tuple(canon(x) for x in v.ravel().tolist()))
        return ('table', tuple(o.columns), v.shape, tuple(float(x).hex() for x in v.astype('f8').ravel()))
    if isinstance(o, SkyCoord):
        return ('sky', float(o.icrs.ra.deg).hex(), float(o.icrs.dec.deg).hex())
    if isinstance(o, dict):
        return ('dict', tuple(sorted((str(k), canon(v)) for k, v in o.items())))
    if isinstance(o, (list, tuple)):
        return ('list', tuple(canon(v) for v in o))
    if isinstance(o, (bool, np.bool_)):
        return ('bool', bool(o))
    if isinstance(o, (int, np.integer)):
        return ('num', _num(int(o)))
    if isinstance(o, (float, np.floating)):
        return ('num', _num(float(o)))
    if o is None or isinstance(o, (str, bytes)):
        return (type(o).__name__, o)
    import fractions
    if isinstance(o, fractions.Fraction):
        return ('num', str(o))
    return ('other', type(o).__name__, repr(o))


def _num(x):
    if isinstance(x, float):
        if math.isnan(x):
            return 'nan'
        if math.isfinite(x) and x == int(x) and abs(x) < 2 ** 53:
            return str(int(x)) if x or math.copysign(1, x) > 0 else '-0'
        return x.hex()
    return str(x)


def differ(a, b, path=''):
    """Where two canonical forms differ (text), or None."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s/%s' % (path, a[0] if i and isinstance(a[0], str) else i))
            if d:
                return d
    return '%s: %.160r instead of %.160r' % (path or '/', b, a)
