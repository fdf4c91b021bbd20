"""
Executable reference model of the pipeline: which trials are searched, which peaks
are found in each, how they are clustered, flagged, filtered and turned into
candidates.  Written from the documentation, with plain Python arithmetic; the
single-trial search and fold are the library's own, each run alone in a fresh
process on the samples the scenario defines.
"""
import base64
import csv
import io
import json
import math
import os
import pickle
import statistics
from fractions import Fraction

from . import scenario as S
from .seams import _real

PEAK_KEYS = ('period', 'freq', 'dm', 'width', 'ducy', 'snr')


class Ambiguous(Exception):
    """The scenario sits on a decision threshold that rounding may move."""


def isolated(fn, *args):
    """fn(*args) in a fresh forked process; returns ('ok', value) or ('err', text)."""
    r, w = os.pipe()
    pid = _real['fork']()
    if pid == 0:
        code = 0
        try:
            _real['close'](r)
            try:
                out = ('ok', fn(*args))
            except BaseException as e:
                out = ('err', '%s: %s' % (type(e).__name__, e))
            data = pickle.dumps(out, protocol=4)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 1
        finally:
            _real['_exit'](code)
    _real['close'](w)
    buf = b''
    while True:
        d = _real['read'](r, 1 << 20)
        if not d:
            break
        buf += d
    _real['close'](r)
    os.waitpid(pid, 0)
    if not buf:
        return ('err', 'process died')
    return pickle.loads(buf)


def band(scn):
    b = scn['band']
    if scn['fmt'] == 'presto':
        other = b['fbot'] + b['nchan'] * b['cbw']
        return min(b['fbot'], other), max(b['fbot'], other), b['nchan']
    d = scn['config']['data']
    return d['fmin'], d['fmax'], d['nchans']


def galactic_b(scn):
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    ra, dec = sky(scn)
    return SkyCoord(ra * u.deg, dec * u.deg, frame='icrs').galactic.b.deg


def sky(scn):
    def hms(s):
        sg = -1.0 if s.strip().startswith('-') else 1.0
        a, b, c = s.strip().lstrip('+-').split(':')
        return sg * (float(a) + float(b) / 60 + float(c) / 3600)

    def fl(x):
        sg = -1.0 if x < 0 else 1.0
        x = abs(x)
        a, x = divmod(x, 10000.0)
        b, c = divmod(x, 100.0)
        return sg * (a + b / 60 + c / 3600)
    if scn['fmt'] == 'presto':
        return hms(scn['raj']) * 15.0, hms(scn['decj'])
    return fl(scn['sp']['raj']) * 15.0, fl(scn['sp']['dej'])


def select(scn, only=None):
    """Indices of the trials to search, by increasing DM: a chain of trials whose
    coverage intervals touch, each as far from the previous one as possible."""
    conf = scn['config']
    idx = list(range(len(scn['trials']))) if only is None else list(only)
    dms = {i: scn['trials'][i]['dm'] for i in idx}
    lo, hi = conf['dmselect']['min'], conf['dmselect']['max']
    lo = min(dms.values()) if lo is None else lo
    hi = max(dms.values()) if hi is None else hi
    cap = conf['dmselect']['dmsinb_max']
    if cap is not None:
        hi = min(hi, cap / abs(math.sin(math.radians(galactic_b(scn)))))
    f0, f1, nch = band(scn)
    wmin = min(r['ffa_search']['period_min'] / r['ffa_search']['bins_min'] for r in conf['ranges'])
    K = 1.0 / 2.41e-4
    kd = K * (f0 ** -2 - f1 ** -2)
    cw, fm = (f1 - f0) / nch, (f0 + f1) / 2
    ks = K * ((fm - cw / 2) ** -2 - (fm + cw / 2) ** -2)
    cand = sorted((d, i) for i, d in dms.items() if lo <= d <= hi)
    if not cand:
        return []

    def rad(d):
        return max(wmin, ks * d) / kd
    out = [cand[0][1]]
    k = 0
    while k < len(cand) - 1:
        n = k + 1
        while n + 1 < len(cand):
            gap = (cand[n + 1][0] - rad(cand[n + 1][0])) - (cand[k][0] + rad(cand[k][0]))
            if abs(gap) < 1e-9:
                raise Ambiguous('DM gap')
            if gap > 0:
                break
            n += 1
        # the next trial itself may already lie beyond reach: it is taken all the same
        out.append(cand[n][1])
        k = n
    return out


def _search(scn, i):
    from riptide import TimeSeries, ffa_search, find_peaks
    from .seams import STATE
    if scn.get('script'):
        STATE.kernel_stub = S.stub_periodogram(scn)
    t = scn['trials'][i]
    conf = scn['config']
    der = conf['dereddening']
    out = []
    x = S.samples(scn, i)
    for k, rg in enumerate(conf['ranges']):
        ts = TimeSeries(x.copy(), t['tsamp'], metadata={'dm': float(t['dm'])})
        _, pg = ffa_search(ts, deredden=True, rmed_width=der['rmed_width'], rmed_minpts=der['rmed_minpts'],
                           **_validated(rg['ffa_search']))
        peaks, _ = find_peaks(pg, **rg['find_peaks'])
        out.append([{a: getattr(p, a) for a in PEAK_KEYS} for p in peaks])
    return out


def _search_range(scn, i, k):
    s = S.with_(scn, **{'config.ranges': [scn['config']['ranges'][k]]})
    if scn.get('script'):
        # keep the numbering of the scripted peaks
        s['script'] = {'peaks': {key.split('/')[0] + '/0': v for key, v in scn['script']['peaks'].items()
                                 if key.endswith('/%d' % k)}}
    return _search(s, i)[0]


def _validated(d):
    return dict(d)


def _fold(scn, i, period, bins, subints):
    from riptide import TimeSeries
    t = scn['trials'][i]
    der = scn['config']['dereddening']
    ts = TimeSeries(S.samples(scn, i), t['tsamp'], metadata={'dm': float(t['dm'])})
    ts = ts.deredden(der['rmed_width'], minpts=der['rmed_minpts']).normalise()
    return ts.fold(period, bins, subints=subints)


class Oracle:
    """Everything the model says about one scenario."""

    def __init__(self, scn, only=None):
        self.scn = scn
        self.selected = select(scn, only)
        self.only = list(range(len(scn['trials']))) if only is None else list(only)
        self.peaks = []
        for i in self.selected:
            for k in range(len(scn['config']['ranges'])):
                st, v = isolated(_search_range, scn, i, k)
                if st != 'ok':
                    raise Ambiguous('stand-alone search fails: ' + v)
                self.peaks += [dict(p, trial=i, range=k) for p in v]
        tobs = [scn['trials'][i]['nsamp'] * scn['trials'][i]['tsamp'] for i in self.only]
        self.tmed = statistics.median(tobs)
        self._clusters()
        self._folds = {}

    def _clusters(self):
        r = self.scn['config']['clustering']['radius'] / self.tmed
        dy = bool(self.scn.get('script'))
        self.clusters = []
        last = None
        for p in sorted(self.peaks, key=lambda p: p['freq']):
            if last is not None:
                d = p['freq'] - last
                if not dy and d > 0 and abs(d - r) < 1e-11 * r:
                    raise Ambiguous('clustering distance')
                if d <= r:
                    self.clusters[-1].append(p)
                    last = p['freq']
                    continue
            self.clusters.append([p])
            last = p['freq']

    def range_of(self, period):
        rs = sorted(self.scn['config']['ranges'], key=lambda r: r['ffa_search']['period_max'])
        if period < rs[0]['ffa_search']['period_min']:
            return rs[0]
        for r in rs:
            if r['ffa_search']['period_min'] <= period < r['ffa_search']['period_max']:
                return r
        return rs[-1]

    def fold(self, peak):
        t = self.scn['trials'][peak['trial']]
        rg = self.range_of(peak['period'])
        sub = rg['candidates']['subints']
        tobs = t['nsamp'] * t['tsamp']
        full = sub * peak['period'] >= tobs
        key = (peak['trial'], peak['period'], rg['candidates']['bins'], None if full else sub)
        if key not in self._folds:
            self._folds[key] = isolated(_fold, self.scn, *key)
        return self._folds[key]

    def related(self, F, H):
        """Documented harmonic tests of H against F (peaks)."""
        h = self.scn['config']['harmonic_flagging']
        f0, f1, _ = band(self.scn)
        slow, fast = (F, H) if F['freq'] <= H['freq'] else (H, F)
        fr = Fraction(fast['freq'] / slow['freq']).limit_denominator(h['denom_max'])
        tests = []
        ph = abs(float(fr) * slow['freq'] - fast['freq']) * self.tmed / fast['ducy']
        tests.append((ph, h['phase_distance_max']))
        width = min(F['ducy'] / F['freq'], H['ducy'] / H['freq'])
        dd = abs(F['dm'] - H['dm']) * 4.15e3 * abs(f0 ** -2 - f1 ** -2) / width
        tests.append((dd, h['dm_distance_max']))
        frac = fr if H is fast else 1 / fr
        ex = F['snr'] / math.sqrt(frac.numerator * frac.denominator)
        tests.append((abs(H['snr'] - ex), h['snr_distance_max']))
        ok = True
        for v, m in tests:
            if abs(v - m) < 1e-9 * max(1.0, m):
                raise Ambiguous('harmonic test on its threshold')
            ok = ok and v <= m
        return ok, frac

    def flags(self, centres):
        """centres: peaks by rank.  Returns [(fundamental rank or None, fraction)]."""
        out = [(None, None)] * len(centres)
        for h in range(len(centres)):
            for f in range(h):
                if out[f][0] is not None:
                    continue
                ok, fr = self.related(centres[f], centres[h])
                if ok:
                    out[h] = (f, fr)
                    break
        return out

    def filtered(self, centres, flags):
        """Ranks that survive the filters, and (must, may) sets after the cap."""
        cf = self.scn['config']['candidate_filters']
        keep = []
        for k, c in enumerate(centres):
            if cf['dm_min'] is not None and not c['dm'] >= cf['dm_min']:
                continue
            if cf['snr_min'] is not None and not c['snr'] >= cf['snr_min']:
                continue
            if cf['remove_harmonics'] and flags[k][0] is not None:
                continue
            keep.append(k)
        n = cf['max_number']
        if not n or len(keep) <= n:
            return keep, set(keep), set(keep)
        cut = sorted((centres[k]['snr'] for k in keep), reverse=True)[n - 1]
        must = {k for k in keep if centres[k]['snr'] > cut}
        may = {k for k in keep if centres[k]['snr'] >= cut}
        return keep[:n], must, may


# ------------------------------------------------------------ products ----

def decode(o):
    """Own decoder of saved objects."""
    import numpy as np
    if isinstance(o, list):
        return [decode(x) for x in o]
    if isinstance(o, dict):
        d = {k: decode(v) for k, v in o.items()}
        t = d.get('__type__')
        if t == 'numpy.ndarray':
            raw = base64.b64decode(d['data'], validate=True)
            return np.frombuffer(raw, dtype=d['dtype']).reshape(d['shape'])
        return d
    return o


def load_candidate(data):
    d = decode(json.loads(data.decode()))
    pk = d['peaks']
    cols = list(pk['columns'])
    rows = [dict(zip(cols, r)) for r in pk['values'].tolist()]
    return {'params': d['params'], 'tsmeta': d['tsmeta'], 'peaks': rows, 'subints': d['subints']}


def read_csv(data):
    return list(csv.DictReader(io.StringIO(data.decode())))


def f9(x):
    return '%.9f' % float(x)


def pkey(p, keys=PEAK_KEYS):
    return tuple(f9(p[k]) for k in keys)


def g12(p):
    return tuple('%.12g' % float(p[k]) for k in PEAK_KEYS)


def multidiff(a, b):
    from collections import Counter
    ca, cb = Counter(a), Counter(b)
    return list((ca - cb).elements()), list((cb - ca).elements())


def verify(scn, oracle, products, root, parts=('P02', 'P03', 'P04'), lost=0, info=None):
    """Compare the products of a completed run (name -> bytes) with the model.
    Returns a list of (property, message).  Raises Ambiguous."""
    import numpy as np
    bad = []

    def fail(prop, msg):
        if prop in parts:
            bad.append((prop, msg))

    o = oracle
    names = set(products)
    cjson = sorted(n for n in names if n.startswith('candidate_') and n.endswith('.json'))
    if not o.peaks:
        if names:
            fail('P02', 'no trial has a significant peak, yet products exist: %s' % sorted(names)[:4])
        return bad
    # ---- peaks
    if 'peaks.csv' not in names:
        fail('P02', 'peaks.csv missing although %d peaks exist' % len(o.peaks))
        return bad
    try:
        rows = read_csv(products['peaks.csv'])
        got = [pkey(r) for r in rows]
    except (KeyError, TypeError, ValueError, UnicodeDecodeError) as e:
        fail('P02', 'peaks.csv is not readable: %r' % e)
        return bad
    exp = [pkey(p) for p in o.peaks]
    miss, extra = multidiff(exp, got)
    if miss or extra:
        fail('P02', 'peaks.csv: %d rows missing, %d rows unexpected (of %d); first missing %s, first unexpected %s' % (
            len(miss), len(extra), len(exp), miss[:1], extra[:1]))
        if miss or extra:
            return bad
    # ---- clusters
    if 'clusters.csv' not in names:
        fail('P03', 'clusters.csv missing')
        return bad
    try:
        crow = read_csv(products['clusters.csv'])
        crow = [dict(r, rank=int(float(r['rank'])), npeaks=int(float(r['npeaks'])),
                     fundamental_rank=int(float(r['fundamental_rank'])), hfrac_num=int(float(r['hfrac_num'])),
                     hfrac_denom=int(float(r['hfrac_denom']))) for r in crow]
        ckeys = [pkey(r, ('period', 'freq', 'dm', 'ducy', 'snr')) for r in crow]
    except (KeyError, TypeError, ValueError, UnicodeDecodeError) as e:
        fail('P03', 'clusters.csv is not readable: %r' % e)
        return bad
    if len(crow) != len(o.clusters):
        fail('P03', 'clusters.csv has %d rows, %d clusters expected' % (len(crow), len(o.clusters)))
        return bad
    centres = {}
    left = list(range(len(o.clusters)))
    for r, key in zip(crow, ckeys):
        hit = None
        for c in left:
            top = max(p['snr'] for p in o.clusters[c])
            cand = [p for p in o.clusters[c] if p['snr'] == top
                    and pkey(p, ('period', 'freq', 'dm', 'ducy', 'snr')) == key]
            if cand:
                hit = (c, cand)
                break
        if hit is None:
            fail('P03', 'cluster row %s does not carry the parameters of the brightest peak of any cluster' % (key,))
            return bad
        c, cand = hit
        left.remove(c)
        if r['npeaks'] != len(o.clusters[c]):
            fail('P03', 'cluster at P=%s: npeaks %d, %d expected' % (r['period'], r['npeaks'], len(o.clusters[c])))
        if r['rank'] in centres:
            fail('P03', 'rank %d given to two clusters' % r['rank'])
            return bad
        centres[r['rank']] = (cand, c, r)
    if sorted(centres) != list(range(len(centres))):
        fail('P03', 'cluster ranks are %s' % sorted(centres))
        return bad
    order = [centres[k] for k in range(len(centres))]
    sn = [x[0][0]['snr'] for x in order]
    if any(a < b for a, b in zip(sn, sn[1:])):
        fail('P03', 'cluster ranks are not in decreasing S/N: %s' % sn)
        return bad
    # ---- which of several tied brightest peaks is the centre?  They may differ
    # in width only (not shown in clusters.csv); settled by candidates.csv below
    cents = []
    for cand, c, r in order:
        if len({(p['dm'], p['freq'], p['ducy']) for p in cand}) > 1:
            pass
        cents.append(cand[0])
    flags = o.flags(cents)
    for k, (cand, c, r) in enumerate(order):
        f, fr = flags[k]
        if f is None:
            if (r['hfrac_num'], r['hfrac_denom'], r['fundamental_rank']) != (0, 0, k):
                fail('P04', 'cluster %d (P=%s S/N=%s) flagged as harmonic %d/%d of %d; not one by the documented tests' % (
                    k, r['period'], r['snr'], r['hfrac_num'], r['hfrac_denom'], r['fundamental_rank']))
        else:
            if (r['hfrac_num'], r['hfrac_denom'], r['fundamental_rank']) != (fr.numerator, fr.denominator, f):
                fail('P04', 'cluster %d (P=%s S/N=%s) recorded as %d/%d of %d; documented tests give %s of %d' % (
                    k, r['period'], r['snr'], r['hfrac_num'], r['hfrac_denom'], r['fundamental_rank'], fr, f))
    if any(p == 'P04' for p, _ in bad):
        return bad
    keep, must, may = o.filtered(cents, flags)
    if info is not None:
        info['harmonics'] = sum(f is not None for f, _ in flags)
        info['filtered out'] = len(cents) - len(keep)
    # candidates that cannot be folded are left out
    natural = {k for k in may if o.fold(cents[k])[0] != 'ok'}
    if info is not None:
        info['unfoldable'] = len(natural & set(keep))
    if may - must and natural & (may - must):
        raise Ambiguous('an unfoldable candidate is tied at the cut')
    nexp = len(set(keep) - natural)
    must, may = must - natural, may - natural
    # ---- candidates
    got = []
    if 'candidates.csv' in names:
        try:
            got = read_csv(products['candidates.csv'])
            gk = [pkey(r) for r in got]
        except (KeyError, TypeError, ValueError, UnicodeDecodeError) as e:
            fail('P03', 'candidates.csv is not readable: %r' % e)
            return bad
    else:
        gk = []
    ranks = []
    for i, key in enumerate(gk):
        hit = [k for k, (cand, c, r) in enumerate(order) if any(pkey(p) == key for p in cand)]
        if not hit:
            fail('P03', 'row %d of candidates.csv %s is not the brightest peak of any cluster' % (i, key))
            return bad
        ranks.append(hit[0])
    if len(set(ranks)) != len(ranks):
        fail('P04', 'a cluster appears twice among the candidates: ranks %s' % ranks)
    rs = set(ranks)
    short = nexp - len(ranks)
    if not 0 <= short <= lost or len(must - rs) > lost or not rs <= may:
        fail('P04', 'candidates are the clusters of rank %s; the configured filters leave %s' % (
            sorted(rs), sorted(set(keep) - natural)))
        return bad
    sn = [cents[k]['snr'] for k in ranks]
    if any(a < b for a, b in zip(sn, sn[1:])):
        fail('P03', 'candidates are not in decreasing S/N: %s' % sn)
    if cjson != ['candidate_%04d.json' % i for i in range(len(ranks))]:
        fail('P03', 'candidate files %s for %d candidates' % (cjson, len(ranks)))
        return bad
    for i, k in enumerate(ranks):
        cand, c, r = order[k]
        peak = next(p for p in cand if pkey(p) == gk[i])
        try:
            cd = load_candidate(products['candidate_%04d.json' % i])
        except Exception as e:
            fail('P03', 'candidate_%04d.json is not a readable candidate: %r' % (i, e))
            continue
        if g12(cd['params']) != g12(peak):
            fail('P03', 'candidate_%04d.json holds %s; row %d of candidates.csv is %s' % (i, cd['params'], i, gk[i]))
            continue
        a, b = multidiff([g12(p) for p in o.clusters[c]], [g12(p) for p in cd['peaks']])
        if a or b:
            fail('P03', 'candidate_%04d.json: member peaks: %d missing, %d unexpected' % (i, len(a), len(b)))
        bad += [(p, m) for p, m in check_meta(scn, peak['trial'], cd['tsmeta'], root, i) if p in parts]
        st, ref = o.fold(peak)
        if st != 'ok':
            fail('P03', 'candidate_%04d: stand-alone fold fails (%s) but the file exists' % (i, ref))
            continue
        x, ref = np.atleast_2d(cd['subints']), np.atleast_2d(ref)
        if x.shape != ref.shape:
            fail('P03', 'candidate_%04d: sub-integrations of shape %s, expected %s' % (i, x.shape, ref.shape))
        elif not np.allclose(x, ref, rtol=1e-4, atol=1e-4 * max(1.0, float(np.abs(ref).max()))):
            fail('P03', 'candidate_%04d: sub-integrations differ from the fold of the trial DM=%s at P=%s (max %g)' % (
                i, peak['dm'], peak['period'], float(np.abs(x - ref).max())))
    return bad


def expected_meta(scn, i, root, indir='in'):
    t = scn['trials'][i]
    ra, dec = sky(scn)
    m = {'dm': float(t['dm']), 'tobs': t['nsamp'] * t['tsamp'], 'tsamp': t['tsamp'],
         'mjd': scn['mjd'], 'source_name': scn['src'], 'ra': ra, 'dec': dec,
         'fname': os.path.join(root, indir, S.fname(scn, i))}
    if scn['fmt'] == 'presto':
        b = scn['band']
        m.update(nsamp=t['nsamp'], nchan=b['nchan'], fbot=b['fbot'], cbw=b['cbw'], raj=scn['raj'], decj=scn['decj'],
                 basename=os.path.basename(t['base']))
    else:
        m.update(nbits=scn['sp']['nbits'], src_raj=scn['sp']['raj'])
    return m


def check_meta(scn, i, meta, root, n):
    out = []
    exp = expected_meta(scn, i, root)
    for k, v in exp.items():
        if k in ('ra', 'dec'):
            sc = meta.get('skycoord') or {}
            g = sc.get('rajd' if k == 'ra' else 'decjd')
            if g is None or abs(g - v) > 1e-7:
                out.append(('P03', 'candidate_%04d: header coordinate %s is %r, %r expected' % (n, k, g, v)))
            continue
        g = meta.get(k)
        if isinstance(v, float):
            if not isinstance(g, (int, float)) or abs(g - v) > 1e-9 * max(1.0, abs(v)):
                out.append(('P03', 'candidate_%04d: header %s is %r, %r expected' % (n, k, g, v)))
        elif g != v:
            out.append(('P03', 'candidate_%04d: header %s is %r, %r expected' % (n, k, g, v)))
    return out
