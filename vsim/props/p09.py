import copy
import os
import struct

from .. import core, faults as F, model, scenario as S
from ..engine import Skip, Violation
from ..seams import R_open, STATE, _real, sim
from ..util import rng, sha

UNITS = {'quick': 320, 'thorough': 9000}
PER_UNIT = {'quick': 14, 'thorough': 28}
LEVEL = 'exploration'
RULE = ('a unit is a pair of random time series files of one format; each execution loads them one to four times while '
        'reads are short or fail, after the file was cut at a random byte, or while another process appends to, '
        'truncates, replaces or deletes it; non-trivial = distinct interleavings and cut positions')
REAL = ('TimeSeries.from_presto_inf / from_sigproc / from_npy_file / from_binary, header parsers, Metadata, numpy.load, '
        'Python buffered I/O, file system')
STUB = ('raw file operations (simulator decides outcome, then performed for real), numpy.fromfile (re-expressed on the raw '
        'file, including its disregard of read errors), the process that modifies the files')
ASSUME = ['the header and samples a file holds are those it was generated from, by an independent writer']

FMT = ['presto', 'presto', 'sigproc', 'sigproc', 'npy', 'binary']


# ------------------------------------------------------------ file versions ----

def gen_version(r, fmt, n=None):
    v = {'fmt': fmt, 'seed': r.getrandbits(32), 'n': n or r.choice([1, 5, r.randint(20, 300), r.randint(300, 3000),
                                                                      r.randint(5000, 20000)]),
         'tsamp': r.choice([0.001, 0.000256, 6.4e-05, 0.0100001, 0.1]), 'dm': r.choice([0.0, 12.5, round(r.uniform(0, 900), 3)]),
         'mjd': round(r.uniform(50000, 60000), 6), 'src': r.choice(['J1234-56', 'Pulsar', 'B0531+21', 'crab psr'])}
    if fmt == 'presto':
        v['raj'] = '%02d:%02d:%07.4f' % (r.randrange(24), r.randrange(60), r.uniform(0, 59.9))
        v['decj'] = '%s%02d:%02d:%07.4f' % (r.choice(['', '-', '+']), r.choice([0, 0, r.randrange(89)]), r.randrange(60),
                                            r.uniform(0, 59.9))
        v['breaks'] = [[0, 10], [20, 29]] if r.random() < 0.25 else []
        v['em'] = r.choice(['Radio'] * 6 + ['X-ray', 'Gamma'])
        v['notes'] = r.random() < 0.5
        v['hn'] = v['n'] if r.random() < 0.8 else max(1, v['n'] + r.choice([-1, 1, 50]))
    elif fmt == 'sigproc':
        v['raj'] = round(r.randrange(24) * 10000 + r.randrange(60) * 100 + r.uniform(0, 59.9), 4)
        v['dej'] = round(r.choice([-1, 1]) * (r.choice([0, 0, r.randrange(89)]) * 10000 + r.randrange(60) * 100 + r.uniform(0.1, 59)), 4)
        v['nbits'] = r.choice([8, 8, 32, 32])
        v['signed'] = r.random() < 0.5
        v['extra'] = r.choice([None, None, 'known', 'user'])
        v['order'] = r.getrandbits(30)
    elif fmt == 'npy':
        v['dtype'] = r.choice(['<f4', '<f8', '>f4', '<i2', 'u1', '<i4', '<f2'])
        v['npv'] = r.choice([1, 2, 3])
    else:
        v['dtype'] = r.choice(['<f4', '<f4', '<f8', '>f4', '<i2', 'u1', '|i1'])
    return v


def dtype_of(v):
    if v['fmt'] == 'presto':
        return '<f4'
    if v['fmt'] == 'sigproc':
        return {8: '|i1' if v['signed'] else '|u1', 32: '<f4'}[v['nbits']]
    return v['dtype']


def values(v):
    import numpy as np
    g = np.random.Generator(np.random.PCG64(v['seed']))
    dt = np.dtype(dtype_of(v))
    x = g.standard_normal(v['n'])
    if dt.kind == 'f':
        return (x * 30).astype(dt)
    return (x * (40 if dt.itemsize == 1 else 9000)).astype('i8').astype(dt)


def header(v):
    if v['fmt'] == 'presto':
        scn = {'trials': [{'base': 'f', 'nsamp': v['hn'], 'tsamp': v['tsamp'], 'dm': v['dm'], 'breaks': v['breaks']}],
               'band': {'fbot': 1214.0, 'cbw': 0.5, 'nchan': 64}, 'src': v['src'], 'raj': v['raj'], 'decj': v['decj'],
               'mjd': v['mjd'], 'bary': v['seed'] & 1}
        t = S.inf_text(scn, 0)
        if v['em'] != 'Radio':
            a, b = t.split(' Type of observation')
            keep = b[b.index(' Data analyzed by'):]
            t = a + ' Type of observation (EM band)          =  %s\n' % v['em'] + \
                ' Field-of-view diameter (arcsec)        =  3.00\n' \
                ' Central energy (kev)                   =  1.0\n' \
                ' Energy bandpass (kev)                  =  0.5\n' + keep
        if not v['notes']:
            t = t[:t.index(' Any additional')]
        return t.encode()
    if v['fmt'] == 'sigproc':
        items = [('source_name', 's', v['src']), ('machine_id', 'i', 10), ('telescope_id', 'i', 4),
                 ('src_raj', 'd', v['raj']), ('src_dej', 'd', v['dej']), ('tstart', 'd', v['mjd']),
                 ('tsamp', 'd', v['tsamp']), ('nbits', 'i', v['nbits']), ('nchans', 'i', 1), ('nifs', 'i', 1),
                 ('refdm', 'd', v['dm']), ('fch1', 'd', 1500.0), ('data_type', 'i', 2)]
        if v['nbits'] == 8:
            items.append(('signed', 'b', int(v['signed'])))
        if v['extra'] == 'known':
            items += [('az_start', 'd', 12.25), ('rawdatafile', 's', 'HEADER_END of it'), ('barycentric', 'i', 1)]
        if v['extra'] == 'user':
            items += [('telescope_diameter', 'd', 64.0), ('num_trusses', 'i', -3), ('planet_name', 's', 'Vega IV'),
                      ('is_ok', 'b', 1)]
        rng('sp9', v['order']).shuffle(items)
        out = S.sp_str('HEADER_START')
        for k, ty, x in items:
            out += S.sp_str(k) + (S.sp_str(x) if ty == 's' else struct.pack({'i': 'i', 'd': 'd', 'b': 'B'}[ty], x))
        return out + S.sp_str('HEADER_END')
    if v['fmt'] == 'npy':
        d = "{'descr': '%s', 'fortran_order': False, 'shape': (%d,), }" % (v['dtype'].replace('u1', '|u1'), v['n'])
        pre = 10 if v['npv'] == 1 else 12
        d = d + ' ' * (-(pre + len(d) + 1) % 64) + '\n'
        return b'\x93NUMPY' + bytes([v['npv'], 0]) + struct.pack('<H' if pre == 10 else '<I', len(d)) + d.encode()
    return b''


def contents(v):
    """{extension: bytes}"""
    x = values(v).tobytes()
    if v['fmt'] == 'presto':
        return {'.inf': header(v), '.dat': x}
    return {{'sigproc': '.tim', 'npy': '.npy', 'binary': '.raw'}[v['fmt']]: header(v) + x}


def expected_header(v):
    if v['fmt'] == 'presto':
        ra, dec = model.sky({'fmt': 'presto', 'raj': v['raj'], 'decj': v['decj']})
        return {'tsamp': v['tsamp'], 'dm': v['dm'] if v['em'] == 'Radio' else None, 'mjd': v['mjd'], 'ra': ra, 'dec': dec,
                'source_name': v['src']}
    if v['fmt'] == 'sigproc':
        ra, dec = model.sky({'fmt': 'sigproc', 'sp': {'raj': v['raj'], 'dej': v['dej']}})
        return {'tsamp': v['tsamp'], 'dm': v['dm'], 'mjd': v['mjd'], 'ra': ra, 'dec': dec, 'source_name': v['src']}
    return {'tsamp': 0.0125, 'dm': None, 'mjd': None, 'ra': None, 'dec': None, 'source_name': None}


# ------------------------------------------------------------ plan ----

def plan(ctx, r, tier, unit):
    fmt = r.choice(FMT)
    a = gen_version(r, fmt)
    bb = gen_version(r, fmt)
    if fmt == 'binary':
        bb['dtype'] = a['dtype']
    for k in range(PER_UNIT[tier]):
        spec = {'fmt': fmt, 'a': a, 'b': bb, 'loads': r.choice([1, 1, 2, 3]), 'cut': None, 'writer': [], 'faults': [],
                'seed': r.getrandbits(32), 'policy': core.random_policy(r), 'buf': r.choice([8192, 8192, 64, 700]),
                'two': r.random() < 0.3}
        x = r.random()
        exts = sorted(contents(a))
        size = {e: len(c) for e, c in contents(a).items()}
        short = {'at': {'op': 'read', 'rel': 'in/*', 'every': True}, 'act': {'t': 'short', 'k': r.choice([1, 7, 64, 511, 4096])}}
        if sum(size.values()) / short['act']['k'] > 3000:
            short['act']['k'] = 4096
        if k == 0:
            pass
        elif x < 0.12:
            spec['faults'] = [short]
        elif x < 0.32:
            spec['faults'] = [{'at': {'op': r.choice(['read', 'read', 'read', 'open']), 'rel': 'in/*', 'nth': r.randint(1, 8)},
                               'act': {'t': 'errno', 'e': r.choice([5, 5, 116, 12, 13])}}]
            if r.random() < 0.6:
                spec['faults'].append(short)
        elif x < 0.6:
            e = r.choice(exts)
            h = {'.inf': size.get('.inf', 0), '.dat': 0, '.raw': 0}.get(e, len(header(a)))
            y = r.random()
            cut = r.randrange(h) if y < 0.55 and h else size[e] - r.choice([1, 2, 3, 4, 5]) if y < 0.75 else r.randrange(size[e])
            spec['cut'] = [e, max(0, cut)]
            if r.random() < 0.2:
                spec['faults'] = [short]
        else:
            spec['loads'] = r.choice([1, 2, 3, 4])
            for _ in range(r.choice([1, 1, 2, 3])):
                e = r.choice(exts)
                op = r.choice(['append', 'append', 'truncate', 'replace', 'delete', 'replace'])
                w = {'op': op, 'ext': e}
                if op == 'append':
                    w['n'] = r.choice([1, 4, 10, 1000, 20000])
                    w['chunk'] = r.choice([1, 3, 512, 100000])
                    if w['n'] / w['chunk'] > 50:
                        w['chunk'] = 512
                    if e == '.inf':
                        w['op'] = 'replace'
                elif op == 'truncate':
                    w['to'] = r.choice([0, r.randrange(size[e] + 1), max(0, size[e] - 4)])
                spec['writer'].append(w)
            if r.random() < 0.5:
                spec['faults'] = [dict(short, act={'t': 'short', 'k': max(64, short['act']['k'])})]
        if ambiguous(spec['writer']):
            spec['writer'] = [w for w in spec['writer'] if w['op'] != 'append']
        yield spec


def ambiguous(ws):
    """An append after a truncation of the same file: a reader may rightly see a mixture of both tails."""
    cut = set()
    for w in ws:
        if w['op'] == 'truncate':
            cut.add(w['ext'])
        elif w['op'] == 'append' and w['ext'] in cut:
            return True
        elif w['op'] in ('replace', 'delete'):
            cut.discard(w['ext'])
    return False


def loader(spec, base):
    from riptide import TimeSeries
    f = spec['fmt']
    if f == 'presto':
        return TimeSeries.from_presto_inf(base + '.inf')
    if f == 'sigproc':
        kt = {'telescope_diameter': float, 'num_trusses': int, 'planet_name': str, 'is_ok': bool}
        if spec['a']['extra'] == 'user' or spec['b']['extra'] == 'user':
            return TimeSeries.from_sigproc(base + '.tim', extra_keys=kt)
        return TimeSeries.from_sigproc(base + '.tim')
    if f == 'npy':
        return TimeSeries.from_npy_file(base + '.npy', 0.0125)
    return TimeSeries.from_binary(base + '.raw', 0.0125, dtype=spec['a']['dtype'])


def describe(ts):
    import numpy as np
    m = ts.metadata
    sc = m['skycoord']
    d = ts.data
    return {'dtype': str(d.dtype), 'shape': d.shape, 'data': np.ascontiguousarray(d).tobytes(), 'tsamp': ts.tsamp,
            'nsamp': ts.nsamp, 'length': ts.length, 'tobs': m['tobs'], 'dm': m['dm'], 'mjd': m['mjd'],
            'source_name': m['source_name'], 'ra': None if sc is None else float(sc.icrs.ra.deg),
            'dec': None if sc is None else float(sc.icrs.dec.deg), 'type': type(d).__name__}


def apply_writer(state, w, other, fmt):
    """Next {ext: (lineage, bytes) or None}"""
    st = dict(state)
    cur = st[w['ext']]
    if w['op'] == 'delete':
        st[w['ext']] = None
    elif w['op'] == 'replace':
        st[w['ext']] = ((cur[0] if cur else 0) + 1, other[w['ext']])
    elif cur is not None:
        if w['op'] == 'append':
            st[w['ext']] = (cur[0], cur[1] + tail(w))
        else:
            st[w['ext']] = (cur[0], cur[1][:w['to']])
    return st


def tail(w):
    return bytes((i * 37 + 11) % 251 for i in range(w['n']))


def execute(ctx, spec):
    if ambiguous(spec['writer']):
        raise Skip('ambiguous')
    b = ctx.bench
    if b.scn != 'p09':
        b.load({'trials': [], 'fmt': '', 'config': {}})
        b.scn = 'p09'
    import shutil
    shutil.rmtree(b.path('in'))
    os.mkdir(b.path('in'))
    b.reset()
    root, fmt = b.root, spec['fmt']
    va, vb = spec['a'], spec['b']
    first = contents(va)
    if spec['cut']:
        e, c = spec['cut']
        first[e] = first[e][:c]
    other = contents(vb)
    base, base2 = b.path('in', 'f'), b.path('in', 'g.h')
    for bs, cs in ((base, first), (base2, other)):
        for e, c in cs.items():
            with R_open(bs + e, 'wb') as f:
                f.write(c)
    states = [{e: (0, c) for e, c in first.items()}]
    for w in spec['writer']:
        states.append(apply_writer(states[-1], w, other, fmt))
    clock = {'started': 0, 'done': 0}
    window = {}

    def hook(s, p, tag, x):
        if tag == 'w-start':
            clock['started'] = x['j'] + 1
        elif tag == 'w-done':
            clock['done'] = x['j'] + 1
        elif tag == 'r-begin':
            window[x['k']] = [clock['done'], None]
        elif tag == 'r-end':
            window[x['k']][1] = clock['started']
        return None

    def reader():
        import warnings
        warnings.simplefilter('ignore')
        outs, kept = [], []
        for k in range(spec['loads']):
            which = base2 if spec['two'] and k == 1 else base
            nfd = len(_real['listdir']('/proc/self/fd'))
            no = len(STATE.openfiles) + len(STATE.fdmap)
            sim('user', 'r-begin', k=k)
            try:
                ts = loader(spec, which)
                o = describe(ts)
                o['which'] = 1 if which == base2 else 0
                kept.append((k, ts))
                o['leak'] = leak(no, nfd)
            except Exception as ex:
                o = {'err': type(ex).__name__, 'msg': str(ex)[:200], 'leak': leak(no, nfd), 'which': 1 if which == base2 else 0}
            sim('user', 'r-end', k=k)
            outs.append(o)
        for _ in range(3):
            sim('sleep', '', s=1000.0)
        for k, ts in kept:
            d = describe(ts)
            for key in d:
                if d[key] != outs[k][key]:
                    outs[k]['changed'] = key
        return outs

    def leak(no, nfd):
        n1 = len(STATE.openfiles) + len(STATE.fdmap)
        n2 = len(_real['listdir']('/proc/self/fd'))
        return [max(0, n1 - no), max(0, n2 - nfd)]

    def writer():
        for j, w in enumerate(spec['writer']):
            path = base + w['ext']
            sim('user', 'w-start', j=j)
            try:
                if w['op'] == 'append':
                    if os.path.exists(path):
                        t = tail(w)
                        with open(path, 'ab', buffering=0) as f:
                            for i in range(0, len(t), w['chunk']):
                                f.write(t[i:i + w['chunk']])
                elif w['op'] == 'truncate':
                    if os.path.exists(path) and os.path.getsize(path) > w['to']:
                        os.truncate(path, w['to'])
                elif w['op'] == 'delete':
                    if os.path.exists(path):
                        os.unlink(path)
                else:
                    with R_open(root + '/tmp/new%d' % j, 'wb') as f:
                        f.write(other[w['ext']])
                    os.rename(root + '/tmp/new%d' % j, path)
            finally:
                sim('user', 'w-done', j=j)
        return 'ok'
    mains = [{'name': 'main', 'fn': reader}]
    if spec['writer']:
        mains.append({'name': 'writer', 'fn': writer})
    res = ctx.run(mains, policy=spec['policy'], faults=spec['faults'], seed=spec['seed'], bufsize=spec['buf'], hook=hook)
    m = res.mains.get('main', {})
    ctx.digests['last'] = sha(res.digest())
    if m.get('signal'):
        return [Violation('loading kills the process (signal %s)' % m['signal'], 'P09:crash')]
    if res.status != 'done':
        raise Skip(res.status)
    if m.get('status') != 'ok' or res.mains.get('writer', {'status': 'ok'}).get('status') != 'ok':
        raise core.HarnessError('%s' % res.mains)
    outs = m['ret']
    if spec['cut']:
        ctx.states.add(sha('%s %s %s' % (fmt, va['seed'], spec['cut']))[:12])
    hard = [f for f in res.fired if f['t'] == 'errno']
    nerr = 0
    ctx.sample({'format': fmt, 'samples': va['n'], 'cut': spec['cut'], 'writer': spec['writer'],
                'faults': [F.label(f) for f in spec['faults']], 'outcomes': [o.get('err', 'loaded') for o in outs]})
    for k, o in enumerate(outs):
        what = describe_load(spec, k, hard, res)
        if o['leak'][0] or o['leak'][1]:
            return [Violation('%s %s and leaves %d file(s) open' % (what, 'fails with ' + o['err'] if 'err' in o else 'succeeds',
                                                                  max(o['leak'])), 'P09:leak')]
        if o['which']:
            sts = [{e: (0, c) for e, c in other.items()}]
            intact, vers = True, {0: vb}
        else:
            lo, hi = window[k]
            sts = states[lo:hi + 1]
            intact = len(sts) == 1 and not spec['cut'] and all(c is not None for c in sts[0].values()) and \
                {e: c[1] for e, c in sts[0].items()} in (contents(va), other)
        ctx.stats['loads: ' + ('error' if 'err' in o else 'ok')] += 1
        if 'err' in o:
            if intact:
                nerr += 1
                if nerr > len(hard):
                    return [Violation('%s fails with %s: %s, but the files are intact and nothing failed' % (
                        what, o['err'], o['msg']), 'P09:refused')]
            continue
        if 'changed' in o:
            return [Violation('%s: %s of the time series returned changes afterwards' % (what, o['changed']), 'P09:changes')]
        bad = judge(spec, o, sts, va if not o['which'] else vb, vb)
        if bad:
            sig = 'P09:content'
            if fmt == 'sigproc' and len({c['.tim'][0] for c in sts if c['.tim']}) > 1:
                sig = 'P09:sigproc-replaced-between-header-and-data'
            return [Violation('%s: %s' % (what, bad), sig)]
    return []


def describe_load(spec, k, hard, res):
    t = 'load %d of a %s file' % (k + 1, spec['fmt'])
    if spec['cut']:
        t += ' whose %s is cut at byte %d' % tuple(spec['cut'])
    if spec['writer']:
        t += ' with another process doing %s' % [w['op'] + ' ' + w['ext'] for w in spec['writer']]
    if hard:
        t += ' (%s)' % ', '.join('%s of %s fails' % (f['op'], f['rel']) for f in hard)
    elif res.fired:
        t += ' (short reads)'
    return t


def f32(raw, dt):
    import numpy as np
    d = np.dtype(dt)
    n = len(raw) // d.itemsize
    return np.frombuffer(raw[:n * d.itemsize], dtype=d).astype(np.float32).tobytes()


def header_bad(o, h):
    for k, v in h.items():
        g = o[k]
        if v is None or isinstance(v, str) or g is None:
            if g != v:
                return '%s is %r, the file says %r' % (k, g, v)
        elif k == 'ra':
            if min(abs(g - v), 360 - abs(g - v)) > 1e-9:
                return 'right ascension is %r, the file says %r' % (g, v)
        elif abs(g - v) > 1e-12 * max(1.0, abs(v)) * (1000 if k == 'dec' else 1):
            return '%s is %r, the file says %r' % (k, g, v)
    return None


def judge(spec, o, sts, va, vb):
    """None when the result is one the file states of the window allow."""
    if o['dtype'] != 'float32' or o['type'] != 'ndarray' or len(o['shape']) != 1:
        return 'data are a %s of type %s, shape %s' % (o['type'], o['dtype'], o['shape'])
    if o['nsamp'] != len(o['data']) // 4:
        return 'nsamp is %r for %d samples' % (o['nsamp'], len(o['data']) // 4)
    for key in ('length', 'tobs'):
        if abs(o[key] - o['nsamp'] * o['tsamp']) > 1e-12 * max(1.0, o['nsamp'] * o['tsamp']):
            return '%s is %r for %d samples of %r s' % (key, o[key], o['nsamp'], o['tsamp'])
    fmt = spec['fmt']
    lines = {}
    dext = {'presto': '.dat', 'sigproc': '.tim', 'npy': '.npy', 'binary': '.raw'}[fmt]
    for s in sts:
        if s[dext] is not None:
            lines.setdefault(s[dext][0], []).append(s[dext][1])
    hv = {0: va}
    if fmt == 'presto':
        hl = {s['.inf'][0] for s in sts if s['.inf'] is not None}
    else:
        hl = set(lines)
    whys = []
    for hx in sorted(hl):
        v = va if hx == 0 else vb
        w = header_bad(o, expected_header(v))
        if w:
            whys.append(w)
            continue
        for lx in sorted(lines):
            if fmt != 'presto' and lx != hx:
                continue
            w = data_bad(o, lines[lx], va if lx == 0 else vb, fmt)
            if not w:
                return None
            whys.append(w)
    return whys[0] if whys else 'it is loaded although the file does not exist'


def data_bad(o, cs, v, fmt):
    """o's samples must be those of a state between (or at) the ones in cs."""
    dt = dtype_of(v)
    off = len(header(v)) if fmt in ('sigproc', 'npy') else 0
    import numpy as np
    size = np.dtype(dt).itemsize
    longest = max(cs, key=len)
    lo, hi = min(len(c) for c in cs), len(longest)
    n = o['nsamp']
    if fmt == 'npy':
        if n != v['n']:
            return '%d samples, the file holds %d' % (n, v['n'])
        if hi < off + n * size:
            return '%d samples are returned but the file is cut to %d bytes' % (n, hi)
    else:
        nmin, nmax = max(0, lo - off) // size, max(0, hi - off) // size
        if not nmin <= n <= nmax:
            return '%d samples, the file holds %s' % (n, nmin if nmin == nmax else 'between %d and %d' % (nmin, nmax))
        if hi < off:
            return 'the header is incomplete'
    want = f32(longest[off:off + n * size], dt)
    if want != o['data']:
        a, b = np.frombuffer(want, 'f4'), np.frombuffer(o['data'], 'f4')
        i = int(np.flatnonzero(a.view('u4') != b.view('u4'))[0])
        return 'sample %d of %d is %r, the file holds %r' % (i, n, float(b[i]), float(a[i]))
    return None


def shrinks(spec):
    for key in ('faults', 'writer'):
        for i in range(len(spec[key])):
            s = copy.deepcopy(spec)
            del s[key][i]
            yield s
    if spec['loads'] > 1:
        yield dict(copy.deepcopy(spec), loads=spec['loads'] - 1)
    if spec['two']:
        yield dict(copy.deepcopy(spec), two=False)
    for k in 'ab':
        if spec[k]['n'] > 5 and not spec['cut']:
            s = copy.deepcopy(spec)
            s[k]['n'] = max(5, spec[k]['n'] // 5)
            yield s
    if spec['policy'] != {'kind': 'seq'}:
        yield dict(copy.deepcopy(spec), policy={'kind': 'seq'})
        if spec['policy'].get('kind') == 'replay':
            ch = spec['policy']['choices']
            n = len(ch)
            while n > 0:
                n //= 2
                yield dict(copy.deepcopy(spec), policy={'kind': 'replay', 'choices': ch[:n]})
